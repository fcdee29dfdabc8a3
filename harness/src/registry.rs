//! The properties, how many cases each tier runs, and what a run must have observed at least.
use crate::ctx::{Cx, R};
use crate::props::*;

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub run: fn(&mut Cx) -> R,
    pub quick: u64,
    pub thorough: u64,
    /// cases handed to a worker at a time
    pub batch: u64,
    /// stack of the thread that runs the cases
    pub stack: usize,
    /// address space limit of a worker
    pub mem: u64,
    /// CPU seconds one case may take (normal cases take milliseconds)
    pub cpu: u64,
    pub cli: bool,
    pub rule: &'static str,
    /// observations a completed quick run has at least
    pub floors: &'static [(&'static str, u64)],
    pub assumptions: &'static [&'static str],
}

const MB: usize = 1 << 20;
const GB: u64 = 1 << 30;

const LIB: Prop = Prop {
    id: "", level: "exploration", run: |_| Ok(()), quick: 0, thorough: 0, batch: 50, stack: 8 * MB, mem: 4 * GB, cpu: 120, cli: false,
    rule: "", floors: &[], assumptions: &["the harness's oracles follow the documented formats", "debug assertions and overflow checks are on in the code under test"],
};

const CLI: Prop = Prop {
    cli: true, batch: 10, mem: 8 * GB, cpu: 300,
    assumptions: &["the harness's oracles follow the documented format and behaviour", "debug assertions and overflow checks are on in the huff under test", "files are not changed by others while huff runs"],
    ..LIB
};

pub fn all() -> Vec<Prop> {
    vec![
        Prop { id: "C01", run: p_comp::c01, quick: 200000, thorough: 7000000,
            rule: "random slices (20 letter types; uniform, skewed, Fibonacci, run, single-letter and motif contents; lengths near powers of 2, 10 and constants of the code) compressed with trees from their own weights, other weights, binary and any shape, then decompressed and compared; non-trivial: at least two letters, two of them different",
            floors: &[("letters round-tripped", 1_000_000)], ..LIB },
        Prop { id: "C02", run: p_comp::c02, quick: 80000, thorough: 2500000, mem: 12 * GB,
            rule: "compressed data over the 12 integer types and 3 user-defined ones (one tree of over 2^32 bits) serialized, compared field by field with an independent reading of the documented layout, parsed back; and containers written by the harness with trees of any shape parsed; non-trivial: more than one letter and leaf",
            floors: &[("layouts compared", 2_000), ("foreign containers read", 1_000)], ..LIB },
        Prop { id: "C03", run: p_tree::c03, quick: 160000, thorough: 5000000,
            rule: "trees from byte counts, maps and user-defined collections (ties, zeros, Fibonacci, totals up to usize::MAX) and from binary; codes compared with paths, completeness checked in a trie; non-trivial: two or more letters",
            floors: &[("codes compared", 100_000), ("trees read from binary", 1_000), ("trees from byte counts", 200)], ..LIB },
        Prop { id: "C04", run: p_tree::c04, quick: 240000, thorough: 10000000,
            rule: "all vectors of up to 5 weights 0..6, and random weights (ties, zeros, Fibonacci, powers of two, around 2^32, totals up to usize::MAX) of up to 70000 letters; cost compared with a two-queue optimum, sums checked at every branch; non-trivial: two or more letters",
            floors: &[("weight vectors enumerated", 19_000), ("trees from byte counts", 500), ("totals over 2^32", 100)], ..LIB },
        Prop { id: "C05", run: p_comp::c05, quick: 160000, thorough: 5000000,
            rule: "as C01; the compressed bytes compared bit by bit with the concatenation of the codes found by walking the tree; non-trivial: at least two letters, two of them different",
            floors: &[("code bits compared", 2_000_000)], ..LIB },
        Prop { id: "C06", run: p_tree::c06, quick: 60000, thorough: 2000000, stack: 2 * MB,
            rule: "trees over 15 letter types written and read; encodings of every shape, truncated, extended, flipped and random, compared with an independent parser of the documented scheme; non-trivial: two or more leaves, or a malformed encoding",
            floors: &[("encodings read", 5_000), ("malformed encodings rejected", 5_000), ("invalid letters rejected", 100), ("encodings written", 1_000)], ..LIB },
        Prop { id: "C07", run: p_comp::c07, quick: 240000, thorough: 10000000,
            rule: "slices with and without letters missing from the tree, missing ones at the start, end or anywhere; non-trivial: a letter is missing, or several leaves",
            floors: &[("slices with a missing letter", 3_000), ("covered slices", 2_000)], ..LIB },
        Prop { id: "C08", run: p_bytes::c08, quick: 24000, thorough: 500000, stack: 2 * MB,
            rule: "random, mutated, truncated and extended containers, extreme and enumerated headers, nesting up to 8 million levels, repeated letters; verdict and decoded letters compared with an independent reader; peak allocation bounded; 2 MB stack; non-trivial: more than a header",
            floors: &[("malformed inputs rejected", 50_000), ("inputs accepted and decoded", 5_000), ("truncated data decoded to a prefix", 500)], ..LIB },
        Prop { id: "C09", run: p_weights::c09, quick: 300000, thorough: 10000000, mem: 16 * GB,
            rule: "every set of one or two byte values, random byte and letter slices incl. empty ones, one of over 2^32 bytes; all accessors and iterators compared with plain counts; non-trivial: two or more letters",
            floors: &[("letters counted", 1_000_000), ("byte sets enumerated", 32_000)], ..LIB },
        Prop { id: "C10", run: p_weights::c10, quick: 80000, thorough: 2500000,
            rule: "random histories of 2 to 60 operations on up to 8 byte counts with few hot bytes, the full contents compared with arrays after every operation; non-trivial: more than 3 operations",
            floors: &[("operations", 50_000), ("equal pairs compared", 300), ("different pairs compared", 300)], ..LIB },
        Prop { id: "C11", run: p_weights::c11, quick: 12000, thorough: 500000, mem: 200 * GB,
            rule: "slices of length below, at and around multiples of the thread count (1 to 3000 threads), each counted repeatedly and by concurrent callers on a loaded machine, compared with plain counts; non-trivial: two or more threads and bytes",
            floors: &[("threads asked for", 50_000), ("concurrent calls", 1_000), ("thread counts", 20)], ..LIB },
        Prop { id: "C12", run: p_pure::c12, quick: 3500, thorough: 100000, mem: 200 * GB,
            rule: "16 operations on 1 to 6 shared values repeated in random histories with failing and panicking calls in between, then from 2 to 150 threads at once, also from within each other (letter types that use the library in their trait methods), and 140000 times in a row; every result compared with the first one, all shared values compared afterwards; non-trivial: all",
            floors: &[("calls repeated in another history", 50_000), ("concurrent calls", 50_000), ("calls overlapping another one", 2_000), ("panicking calls", 2_000), ("calls from within calls", 20_000), ("calls in long histories", 1_000_000)], ..LIB },
        Prop { id: "C13", run: p_san::c13, quick: 33, thorough: 1584, batch: 1, cli: true,
            rule: "processes running batches of the other library properties' cases and of deliberately hostile safe calls (branches without letters or codes, lying weights, letters whose trait methods panic or contradict each other) under AddressSanitizer (all operations), ThreadSanitizer with instrumented std (threaded counting, concurrent histories) and Miri with Tree Borrows (all operations, small inputs); non-trivial: all",
            floors: &[("asan: cases", 5_000), ("tsan: cases", 200), ("miri: cases", 50), ("tsan: threads", 500), ("asan: hostile", 300), ("miri: hostile", 3)],
            assumptions: &["AddressSanitizer, ThreadSanitizer and Miri report the undefined behaviour an execution has", "aliasing reports of Miri's experimental model count only when located in the code under test"], ..LIB },
        Prop { id: "C14", run: p_cli::c14, quick: 7000, thorough: 60000,
            rule: "files of 20 content styles up to 1.5 MB (empty ones aside), compressed with one block size and decompressed with three others (1 byte to 2^64-1, divisors, neighbours of powers of 2, units), in an optimized and a plain build; non-trivial: more than one byte",
            floors: &[("files restored", 1_000), ("compressing blocks", 1_500), ("decompressing blocks", 500)], ..CLI },
        Prop { id: "C15", run: p_cli::c15, quick: 6000, thorough: 60000,
            rule: "archives of one file with three block sizes compared with each other, with the documented format, the optimal length and the library's serialized compression; archives made by the harness with any tree shape and padding bits decompressed; non-trivial: more than one byte or letter",
            floors: &[("archives compared", 500), ("foreign archives decompressed", 300)], ..CLI },
        Prop { id: "C16", run: p_cli::c16, quick: 20000, thorough: 120000,
            rule: "runs with any options, answers, good and spoiled sources, read-only directories, and destinations that are the source under another spelling, through symbolic and hard links and linked directories; the whole file tree compared; non-trivial: all",
            floors: &[("sources kept", 500), ("sources replaced", 200), ("aliased destinations", 500)], ..CLI },
        Prop { id: "C17", run: p_cli::c17, quick: 4000, thorough: 60000,
            rule: "existing destinations (files, links, hard links) with consenting and refusing answers, end of input and answers held back while the file tree is watched; runs with nothing to ask for with their standard input traced; non-trivial: all",
            floors: &[("refusing answers", 300), ("consenting answers", 200), ("waits observed", 150), ("runs with nothing to ask for", 200)], ..CLI },
        Prop { id: "C18", run: p_fault::c18, quick: 9000, thorough: 100000,
            rule: "missing, empty, unreadable and directory sources, wrong extensions, invalid block sizes, bad destinations and flags; archives mutated, truncated, extended, random and nested up to 4 million levels, in an optimized and a plain build, with and without existing destinations; status, message and file tree checked, accepted archives compared with an independent decoder; non-trivial: all",
            floors: &[("rejections", 700), ("malformed archives rejected", 1_500), ("archives accepted and compared", 300), ("deep trees", 80)], ..CLI },
        Prop { id: "C19", level: "fault_enumeration", run: p_fault::c19, quick: 900, thorough: 6000,
            rule: "for each scenario (compress or decompress, with and without --replace and an old destination) every open, read, write, seek and unlink call of the run fails once, and from it on, with several error codes, also after a partial write and in pairs; full devices and read-only directories; non-trivial: all",
            floors: &[("faulted runs", 4_000), ("failing calls of class r", 150), ("failing calls of class w", 100), ("failing calls of class o", 100), ("failing calls of class u", 50), ("full devices", 10)], ..CLI },
        Prop { id: "C20", level: "fault_enumeration", run: p_fault::c20, quick: 600, thorough: 5000,
            rule: "for each scenario every read and write is cut short or interrupted by itself and in pairs, and all of them at random; non-trivial: all",
            floors: &[("runs", 3_000), ("short transfers", 1_000), ("interrupted calls", 500)], ..CLI },
        Prop { id: "C21", level: "fault_enumeration", run: p_fault::c21, quick: 330, thorough: 5000,
            rule: "for each scenario huff is killed before and after every file system call and in the middle of every write, and at random times on bigger files, then run again; non-trivial: all",
            floors: &[("kills", 1_500), ("reruns", 1_000), ("killed with part of the destination", 100), ("killed with the source deleted", 20)], ..CLI },
        Prop { id: "C22", run: p_cli::c22, quick: 20000, thorough: 120000,
            rule: "names with and without extensions, spaces, newlines and invalid UTF-8, relative, absolute and linked paths, default and given destinations, all options in any order; the whole file tree compared; non-trivial: all",
            floors: &[("runs", 1_500), ("default destinations", 500), ("destinations given", 500)], ..CLI },
        Prop { id: "C23", run: p_fault::c23, quick: 200, thorough: 1500, batch: 5,
            rule: "files larger than the block with every read traced; block sizes with units against the same number of bytes (gigabytes on sparse files); peak memory on files hundreds of times the block size and on archives that claim huge trees; non-trivial: all",
            floors: &[("reads watched", 200), ("units compared", 40), ("big files", 8), ("archives with huge trees", 5)], ..CLI },
        Prop { id: "C24", run: p_tree::c24, quick: 200000, thorough: 8000000,
            rule: "random histories of changes to hand-built branches compared with a model after every change; comparisons of leaves and branches; hand-built trees set through root_mut and used; non-trivial: all but single-leaf trees",
            floors: &[("changes", 50_000), ("pairs compared", 50_000), ("hand-built trees used", 1_000)], ..LIB },
        Prop { id: "C25", run: p_parts::c25, quick: 60000, thorough: 2000000,
            rule: "compressed data made from trees over 20 letter types, any data (empty too) and any number of padding bits; trees from no weights; errors about missing letters; non-trivial: two or more letters",
            floors: &[("parts kept", 5_000), ("impossible parts refused", 5_000), ("errors read", 1_000), ("empty weights refused", 5_000)], ..LIB },
        Prop { id: "C26", run: p_parts::c26, quick: 400000, thorough: 10000000,
            rule: "all values of one byte, parts of those of two, edges and random values of the 12 integer types to bytes and back; every other number of bytes; non-trivial: all",
            floors: &[("letters compared", 500_000), ("other lengths refused", 20_000), ("parts of the small types", 40)], ..LIB },
        Prop { id: "C27", run: p_many::c27, quick: 500, thorough: 6000,
            rule: "two to five runs of huff on different files of similar names, the same file with two destinations, or files of the same name in two directories: started at once, and stopped before chosen file system calls while others run through; non-trivial: all",
            floors: &[("sets of runs at the same time", 2_000), ("runs stopped midway", 600), ("started at once", 200), ("interleavings", 200)], ..CLI },
    ]
}
