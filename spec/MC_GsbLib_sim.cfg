SPECIFICATION Spec
CONSTANTS Srcs <- SrcNames Mats <- MatNames Vecs <- VecNames
    Formats2 = {"coo1", "coo2", "coo3", "cooI", "cooE", "csr", "csr2", "crcsr", "cswr", "cswr8", "dense", "csbr", "csbru", "bcoo", "bcsr", "ecoo", "ecsr", "ecsrp", "eden", "edenp", "edef"}
    Formats3 = {"coo1", "coo2", "coo3", "csr", "csr2", "crcsr", "cswr", "cswr8", "dense", "csbr", "csbru", "csbr2", "cgbr", "cgbr2", "cgbr2b", "bcoo2", "bcsru", "ecoo", "ecsrp"}
    MaxCalls = 1000
INVARIANTS TypeOK
CHECK_DEADLOCK FALSE
