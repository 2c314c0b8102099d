"""Script generator for the recorder/database driver."""
SQL = ("bool int float double str fstr blob uuid v_int v_dbl v_str v3_int v2_dbl v2_fstr v_fstr v2_str s_int s_str s_fstr "
       "l_int l_str l_fstr l_p_ii m_ii m_id m_is m_si m_sd m_ss m_fsd m_s_v_d m_s_m_id m_s_p_d_m_id m_i_m_sd m_s_v_p_i_p_ss "
       "m_s_p_s_v_d m_s_m_si m_s_m_sd v_p_p_dd_m_sd m_p_ss_i").split()
H5 = ("v_flt v_blob v_uuid s_flt s_dbl s_blob s_uuid l_bool l_flt l_dbl l_blob l_uuid p_ib p_ii p_if p_id p_is p_iB p_iu p_sb p_si "
      "p_sf p_sd p_ss p_sB p_su m_ib m_if m_iB m_iu m_sb m_sf m_sB m_su m_p_is_d").split()
CMP = "bool int float double str fstr uuid".split()
# Known finding (HDF5): variable-length containers of fixed-length strings share their store with those of
# variable-length strings, so one file gets only one of the two kinds.
CLASH = {"v_fstr": ["v_str"], "s_fstr": ["s_str"], "l_fstr": ["l_str"],
         "m_fsd": ["m_sd", "m_i_m_sd", "m_s_m_sd", "v_p_p_dd_m_sd"]}
OPS = ["==", "!=", "<", ">", "<=", ">="]


def gen_rec(rng):
    """The recorder alone: batches, flushes, closing, settings."""
    L = ["tab t1 int str", "tab t2 double", "tab t3 v_int m_sd bool"]
    na = {"t1": 2, "t2": 1, "t3": 3}
    nb = rng.choice([1, 2, 2, 3])
    L += ["back cap"] * nb
    nr = 0
    opened = []
    regd = {}

    def sim():
        nonlocal nr
        nr += 1
        opened.append(nr)
        L.append("sim %d %d" % (rng.choice([0, 1, 2, 3, 5, 10]), rng.random() < .8))
        regd[nr] = set()
        for b in range(1, nb + 1):
            if rng.random() < .7:
                regd[nr].add(b)
                L.append("reg %d %d" % (nr, b))
    sim()
    for _ in range(rng.choice([8, 15, 30])):
        p = rng.random()
        if not opened:
            sim()
        r = rng.choice(opened)
        if p < .7:
            t = rng.choice(sorted(na))
            L.append("rec %d %s %s" % (r, t, " ".join(str(rng.randrange(12)) for _ in range(na[t]))))
        elif p < .78:
            L.append("flush %d" % r)
        elif p < .82:
            L.append("close %d" % r)
            regd[r] = set()
        elif p < .86:
            L.append("inject %d %d" % (r, rng.randrange(2)))
        elif p < .89:
            L.append("dump %d %d" % (r, rng.choice([0, 1, 2, 3, 4, 7])))
        elif p < .92:
            L.append("del %d" % r)
            opened.remove(r)
        elif p < .95 and nr < 3:
            sim()
        else:
            b = rng.randint(1, nb)
            if b not in regd[r]:
                regd[r].add(b)
                L.append("reg %d %d" % (r, b))
    L += ["del %d" % r for r in opened]
    return L


def gen_db(rng, kinds=("sql", "h5"), big=False):
    """Databases behind the recorder: round trips and queries."""
    kinds = list(kinds) if rng.random() < .5 else [rng.choice(list(kinds))]
    pool = SQL if "sql" in kinds else SQL + H5
    if "h5" not in kinds:
        pool = pool + ["nblob"] * 3                 # HDF5 cuts blobs at NUL bytes (known finding)
    if "h5" in kinds:
        out = set()
        for f, vs in CLASH.items():
            out |= {f} if rng.random() < .5 else set(vs)
        pool = [t for t in pool if t not in out]
    L = ["back " + k for k in kinds]
    if rng.random() < .3:
        kinds.append("cap")
        L.append("back cap")
    nb = len(kinds)
    dbs = [i + 1 for i, k in enumerate(kinds) if k != "cap"]
    tabs = {}
    for i in range(rng.choice([1, 2, 3])):
        n = rng.choice(["Tab%d", "ThingVals%d", "Ab%d", "Table_%d"]) % i
        ty = [rng.choice(CMP) if rng.random() < .4 else rng.choice(pool) for _ in range(rng.choice([1, 2, 3, 4]))]
        tabs[n] = ty
        L.append("tab %s %s" % (n, " ".join(ty)))
    inj = rng.random() < .8
    nr = 0
    regd = set()

    def sim():
        nonlocal nr
        nr += 1
        L.append("sim %d %d" % (rng.choice([1, 1, 2, 5, 10]), inj))
        for b in range(1, nb + 1):
            L.append("reg %d %d" % (nr, b))
    sim()

    def query(op=None):
        b = rng.choice(dbs)
        t = rng.choice(sorted(tabs) + (["NoSuchTable"] if rng.random() < .1 else []))
        cs = []
        col = rng.randint(1, 9)
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 4])):
            if rng.random() < .6:
                col = rng.randint(1, 9)
            if inj and rng.random() < .3:
                cs.append("0 %s %d" % (rng.choice(["==", "=="]), rng.randint(1, nr)))
            else:
                cs.append("%d %s %d" % (col, rng.choice(OPS), rng.randrange(12)))
        L.append("%s %d %s %s" % (op or rng.choice(["q", "q", "q", "qi", "qx"]), b, t, " ".join(cs)))

    def rec(n=1):
        t = rng.choice(sorted(tabs))
        for _ in range(n):
            L.append("rec %d %s %s" % (nr, t, " ".join(str(rng.randrange(12)) for _ in tabs[t])))

    for _ in range(rng.choice([10, 20, 40])):
        p = rng.random()
        if p < .7:
            rec()
        elif p < .85:
            query()
        elif p < .89:
            L.append("flush %d" % nr)
        elif p < .91:
            L.append("info %d %s" % (rng.choice(dbs), rng.choice(sorted(tabs))))
        elif p < .95:
            L.append("close %d" % nr)
            if rng.random() < .7:
                L.append("reopen %d" % rng.choice(dbs))
            if nr < 3:
                sim()
            else:
                for b in range(1, nb + 1):
                    L.append("reg %d %d" % (nr, b))
        else:
            rec(rng.choice([3, 10]))
    if big:
        rec(rng.choice([1020, 1024, 1030, 2060]))
        for _ in range(3):
            query()
    L.append("close %d" % nr)
    for b in dbs:
        if rng.random() < .7:
            L.append("reopen %d" % b)
        for t in sorted(tabs):
            L.append("q %d %s" % (b, t))
        L.append("info %d %s" % (b, rng.choice(sorted(tabs))))
    for _ in range(3):
        query()
    return L


def gen(rng, focus):
    if focus == "rec":
        return gen_rec(rng)
    return gen_db(rng, {"db": ("sql", "h5"), "sql": ("sql",), "h5": ("h5",), "big": ("sql", "h5")}[focus], focus == "big")
