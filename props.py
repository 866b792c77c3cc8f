"""What each check proves and runs.

roots: the functions whose contracts state the property (their callees are followed automatically).
level: proof when every function in the closure is under contract; otherwise exploration."""
import os

HERE = os.path.dirname(os.path.abspath(__file__))
ASSUMPTIONS = [
    "the translator (extract/translate.py) renders the clang AST of /repo's current sources faithfully; what it drops or "
    "rewrites is listed in DESIGN.md",
    "x86-64 Linux, little-endian, 8-bit bytes, 64-bit size_t",
    "memory allocation succeeds; std::string, std::vector and the compiler builtins behave as their contracts in contracts/prelude.rs say",
    "Verus and Z3 are sound",
    "preconditions of the public functions (legal, keys_ok, query keys below 2^31 bytes, ratio 1 to 0x7000_0000, ...) are the "
    "caller's to keep; DESIGN.md lists them",
]
MAKE = ["SuRF::new_1", "SuRF::new_4", "SuRF::new_6", "SuRF::create"]
SEEK = ["SuRF::moveToFirst", "SuRF::moveToLast", "SuRF::moveToKeyGreaterThan", "SuRF::moveToKeyLessThan"]
STEP = ["SuRF_Iter::op_inc", "SuRF_Iter::op_dec", "SuRF_Iter::isValid"]
ASK = SEEK + STEP + ["SuRF::lookupKey", "SuRF::lookupRange", "SuRF::approxCount_Str_Str", "SuRF::approxCount_Iter_Iter",
       "SuRF_Iter::getKey", "SuRF_Iter::getSuffix", "SuRF_Iter::getKeyWithSuffix", "SuRF_Iter::compare", "SuRF_Iter::getFpFlag"]
STORE = ["SuRF::serializedSize", "SuRF::serialize"]
PUBLIC = MAKE + ASK + STORE + ["SuRF::deSerialize", "SuRF::getMemoryUsage", "SuRF::getHeight", "SuRF::getSparseStartLevel", "SuRF::new_0",
    "SuRFBuilder::build", "BitvectorRank::rank", "BitvectorRank::prefetch", "BitvectorSelect::select", "BitvectorSelect::numOnes",
    "Bitvector::distanceToNextSetBit", "Bitvector::distanceToPrevSetBit", "Bitvector::readBit", "LabelVector::search",
    "LabelVector::searchGreaterThan", "BitvectorSuffix::constructSuffix", "BitvectorSuffix::checkEquality", "BitvectorSuffix::compare",
    "uint64ToString", "stringToUint64"]
PROPS = {
    "P01": dict(roots=MAKE + ["SuRF::lookupKey"], level="proof"),
    "P02": dict(roots=MAKE + ["SuRF::lookupRange"], level="proof"),
    "P03": dict(roots=MAKE + ["SuRF::lookupKey"], level="proof"),
    "P04": dict(roots=MAKE + ["SuRF::lookupRange"], level="proof"),
    "P05": dict(roots=MAKE + ["SuRF::moveToFirst", "SuRF::moveToLast"] + STEP + ["SuRF_Iter::getKey"], level="proof"),
    "P06": dict(roots=MAKE + ["SuRF::moveToKeyGreaterThan"] + STEP, level="proof"),
    "P07": dict(roots=MAKE + ["SuRF::moveToKeyLessThan"] + STEP, level="proof"),
    "P08": dict(roots=MAKE + SEEK + STEP + ["SuRF::approxCount_Iter_Iter", "SuRF::approxCount_Str_Str"], level="proof"),
    "P09": dict(roots=MAKE + ASK + STORE + ["SuRF::deSerialize"], level="proof", clients="clients"),
    "P10": dict(roots=["BitvectorRank::new_5", "BitvectorRank::rank"], level="proof"),
    "P11": dict(roots=["BitvectorSelect::new_5", "BitvectorSelect::select", "BitvectorSelect::numOnes"], level="proof"),
    "P12": dict(roots=["Bitvector::distanceToNextSetBit", "Bitvector::distanceToPrevSetBit"], level="proof"),
    "P13": dict(roots=["LabelVector::new_3", "LabelVector::search", "LabelVector::searchGreaterThan"], level="proof"),
    "P14": dict(roots=["SuRFBuilder::storeSuffix", "SuRFBuilder::insertSuffix", "BitvectorSuffix::new_7", "BitvectorSuffix::read", "BitvectorSuffix::readReal",
                       "LoudsSparse::new_1", "LoudsDense::new_1", "LoudsSparse::getSuffixPos", "LoudsDense::getSuffixPos"], level="proof"),
    "P15": dict(roots=["BitvectorSuffix::constructSuffix", "BitvectorSuffix::checkEquality"], level="proof"),
    "P16": dict(roots=["uint64ToString", "stringToUint64"], level="proof"),
    "P17": dict(roots=PUBLIC, level="proof"),
    "P18": dict(roots=MAKE + ASK, level="proof", clients="clients"),
    "P19": dict(roots=MAKE + ASK + STORE, level="proof", clients="clients"),
    "P20": dict(roots=["suxpopcount", "popcountLinear", "select64", "select64_popcount_search", "select64_naive", "select512", "selectLinear", "select64_broadword"], level="proof"),
    "P21": dict(roots=MAKE + SEEK + STEP + ["SuRF_Iter::getKey", "SuRF_Iter::getSuffix", "SuRF_Iter::getKeyWithSuffix"], level="proof"),
    "P22": dict(roots=MAKE + SEEK + STEP + ["SuRF_Iter::compare", "BitvectorSuffix::compare"], level="proof"),
    "P23": dict(roots=["Bitvector::new_4", "Bitvector::readBit", "Bitvector::numBits"], level="proof"),
    "P24": dict(roots=["BloomFilter::new_1", "BloomFilter::CreateFilter_Str_i32_Str", "BloomFilter::CreateFilter_u64_i32_Str",
                       "BloomFilter::KeyMayMatch_Str_Str", "BloomFilter::KeyMayMatch_u64_Str"], level="proof", clients="clients_bloom",
                assumptions=["the four hash words of a key are a function of its bytes: bench/bloom.hpp's BloomHash and what it calls use no "
                             "globals, no uninitialized variables and do not read what they write (checked on the AST on every run), and read "
                             "only the key's bytes (proved); that such C++ code is deterministic is assumed",
                             "floating-point arithmetic yields an arbitrary value (the number of probes is then clamped to 1..30)",
                             "keys shorter than 2 GiB, fewer than 2^31 keys (the interface takes an int), bits per key at least 1"]),
    "P25": dict(roots=["SuRF::lookupKey"] + SEEK + STEP + ["SuRF_Iter::getKey", "SuRF_Iter::getSuffix", "SuRF_Iter::getKeyWithSuffix", "SuRF_Iter::compare",
                       "SuRF_Iter::getFpFlag"], level="proof", clients="clients_threads", threads=True,
                assumptions=["a C++ access is translated to a Rust access of the same kind: what a function reads through a const reference or "
                             "pointer it reads through a shared reference, and a store through one, to a static or to a mutable member has no "
                             "translation; so rustc's check that the filter is Sync and that each thread owns its iterator carries over",
                             "rustc's Send and Sync checks are sound; vstd's contracts for spawn and join",
                             "const operations of std::string and std::vector may run at the same time (the C++ standard's guarantee)",
                             "a thread that the system cannot start or ends early gives no answer (join returns an error)"]),
}


def known_findings(prop):
    f = os.path.join(HERE, "known_findings.txt")
    res = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                res.append(l.split(" ", 2)[2])
    return res

NOT_APPLICABLE = {
    "P26": "a statement about a probability distribution over random queries; a contract states what holds for each input, not frequencies",
}
