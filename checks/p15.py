import store_check

# Listed in known-findings.txt: in one HDF5 file, variable-length maps of fixed-length and of variable-length strings
# share one store, whose type is that of the first.
FIXED_AND_VL = ["back h5", "tab T m_fsd m_sd", "sim 1 1", "reg 1 1", "rec 1 T 3 5", "close 1", "reopen 1", "q 1 T"]
TEXT = "HDF5: a table with both a map of fixed-length strings and one of variable-length strings cannot be read back after reopening the file"
# Listed too: the HDF5 format stores blobs as texts.
NUL = ["back h5", "tab T nblob", "sim 1 1", "reg 1 1"] + ["rec 1 T %d" % i for i in range(12)] + ["close 1", "q 1 T"]
NUL_TEXT = "HDF5: a blob with a NUL byte comes back cut at it"


def run(ck):
    store_check.run(ck, [("db", 350), ("sql", 350), ("h5", 350), ("big", 8)], model=False, probes=[(FIXED_AND_VL, '<< "query-failed", "io"', TEXT), (NUL, '<< "query-rows", "T", "h5"', NUL_TEXT)])
    ck.assumptions += ["strings (and blobs in HDF5 files, a known finding) hold no NUL bytes, numbers are finite", "fixed-length values fit the declared shape",
                       "one HDF5 file does not mix variable-length containers of fixed- and variable-length strings (known finding)"]
