SPECIFICATION Spec
CONSTANTS Srcs <- FewSrcs Mats <- FewMats Vecs <- FewVecs
    Formats2 = {"csr", "csbr"} Formats3 = {"csr", "csbr", "cgbr2"} MaxCalls = 6
INVARIANTS TypeOK Linear
PROPERTIES FrameProp MatsFixed
VIEW View
CHECK_DEADLOCK FALSE
