import convert_gen as g


def run(ck):
    ck.build("convert")
    bs = ck.behaviours("MCConvert", "MCConvert2.cfg")
    if not ck.thorough:
        bs = ck.rng.sample(bs, min(len(bs), 2500))
    hs = [g.decode(h) for h in ck.drive("convert", [g.xml_script(ck.rng, b, all_=True) for b in bs])]
    ck.validate("ConvertTrace", hs, name="SpecDocuments")
    hs = [g.decode(h) for h in ck.drive("convert", [g.gen(ck.rng) for _ in range(ck.n(3000, 40000))])]
    ck.count_ops(hs)
    ck.validate("ConvertTrace", hs, name="RandomDocuments")
    ck.assumptions += ["elements have either text or elements, no attributes, no CDATA sections", "JSON arrays are not nested directly in arrays",
                       "conversion from and to Python input is not driven"]
