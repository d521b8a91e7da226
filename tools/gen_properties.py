#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Kept as a script so the statements stay easy to edit."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["bytes written to standard output", "exit status"]
    a["hook_needed"] = hook or "std and tempfile replaced by simulated crates (cfg nd_sim); no other hook"
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a))

DELIV = "every input content and every way the operating system may hand it over: any read sizes, reads interrupted by signals, pauses, several block sizes"
SAMPLE = "The unit tests feed a few fixed patterns through a mock source with random lengths and never go through the whole program; "

p("C01", "Concatenated input is every file in order, each padded to the alignment",
  "With --cat N (or by default, N = 1) the byte stream equals the input files' bytes in command-line order, each file followed by just enough filler bytes (--filler, default 0) to reach a multiple of N. No byte is lost, duplicated, reordered or invented, at any input size, however the reads are split.",
  ["inputs","schedules","fault_sequences","configurations"], DELIV+"; any number of files, N and filler.",
  SAMPLE+"they never combine alignment, several sources and short or interrupted reads near a block boundary.",
  ["src/byte/cat.rs","src/byte/raw.rs","src/streambuf.rs","src/main.rs"],
  [("source concatenation and carry-over between sources","src/byte/cat.rs CatStream::fill_buf"),("alignment at end of file","src/streambuf.rs mark_eof"),("block reader","src/byte/raw.rs")],
  [("buffer window","bytes held between fill and consume","src/streambuf.rs StreamBuf")])
p("C02", "Zipped input interleaves N-byte words until the shortest input ends",
  "With --zip N the stream is the round-robin interleaving of N-byte words of the inputs in command-line order, where each input's last partial word is completed with the filler and the stream stops at the end of the shortest input. This holds for every number of inputs, every N and every relative speed of the inputs, and once the shortest input has ended the others need not end.",
  ["inputs","schedules","fault_sequences","configurations"], DELIV+"; sources that are unequal, empty, slow or endless.",
  SAMPLE+"they use equal small sources; specialised copy kernels per N and per source count are sampled only once each.",
  ["src/byte/zip.rs","src/streambuf.rs"],
  [("word gather kernels","src/byte/zip.rs ZipStream::gather*"),("shortest-source accounting","src/byte/zip.rs fill_buf")])
p("C03", "Hex-dump input reconstructs exactly the bytes it describes",
  "With --in-format x (or another three-letter text signature) the stream is, for each record in turn, the filler for the gap between the end of the previous record's span (its offset plus its length) and this record's offset, then the record's bytes as they are; the gapless signatures (offset given as n) concatenate the record bodies. The result does not depend on where reads split the text, on letter case, on the final newline, or on the mosaic column being present.",
  ["inputs","schedules","fault_sequences","configurations"], DELIV+"; any valid text record sequence, including records that straddle internal buffers.",
  SAMPLE+"records are only parsed from sources that always show whole lines, and the vector and scalar parsers are never compared on the same program run.",
  ["src/byte/text.rs","src/text/parser/mod.rs","src/text/parser/x86_64.rs","src/text/parser/naive.rs"],
  [("line parser","src/text/parser/mod.rs TextParser::read_line"),("offset gap filling","src/byte/text.rs TextStream"),("SIMD body parser","src/text/parser/x86_64.rs")])
p("C04", "Cut and pad select and frame exactly the requested bytes",
  "--cut keeps exactly the bytes whose offset lies in the union of the given ranges, in order, with s-anchored and e-anchored bounds resolved against the true stream length even when that length is known only at the end. --pad N,M then puts exactly N filler bytes before and M after.",
  ["inputs","schedules","fault_sequences","configurations"], DELIV+"; any list of overlapping, unordered, empty, out-of-range, start- or end-anchored ranges.",
  SAMPLE+"a handful of ranges on tiny inputs; end-anchored ranges across many refills and interrupted reads are not reached.",
  ["src/byte/cut.rs","src/byte/clip.rs","src/mapper.rs","src/byte/zero.rs"],
  [("range tracking with tail margin","src/byte/cut.rs CutStream"),("anchor resolution","src/mapper.rs RangeMapper"),("padding","src/byte/clip.rs ClipStream")])
p("C05", "A patch file rewrites exactly the spans its records name",
  "With --patch the output equals the input in which each record's span [offset, offset+length) is replaced by the record's bytes, so a zero-length span inserts, an empty body deletes, and every other byte is unchanged. Records that start at or after the end of the input, or reach beyond it, add their bytes without inventing others.",
  ["inputs","schedules","fault_sequences","configurations"], DELIV+"; any sorted non-overlapping patch, with input and patch file delivered independently of one another.",
  SAMPLE+"two patch tests with small fixed patches; a patch boundary falling on a buffer boundary or a patch file that arrives in pieces is not sampled.",
  ["src/byte/patch.rs","src/byte/text.rs","src/text/parser/mod.rs"],
  [("patch merge","src/byte/patch.rs PatchStream::fill_buf"),("patch feeder","src/byte/patch.rs PatchFeeder")],
  [("skip","input bytes still to be replaced by the last record","src/byte/patch.rs")])
p("C06", "Malformed, unsorted or overlapping records are reported, never obeyed",
  "If a hex input, a patch or a guide file contains an unparsable line, or a hex input or patch whose records go backwards or overlap, the program ends with a nonzero status and an error message, wherever the bad record lies and however the text is delivered. Output produced before the failure is a prefix of what the records before the bad one describe, and valid files are never rejected.",
  ["inputs","schedules","fault_sequences"], DELIV+"; any position of the first bad record relative to buffers, end of file and other records.",
  "One overlap test on a two-record input exists; none checks position, delivery or that the failure is reported through the exit status.",
  ["src/byte/text.rs","src/byte/patch.rs","src/text/parser/mod.rs","src/segment/guided.rs"],
  [("overlap check","src/byte/text.rs TextStream::fill_buf"),("record syntax check","src/text/parser/mod.rs")],
  observe=["exit status","stderr","stdout prefix"])
p("C07", "Fixed-width and range slicing emit exactly the requested slices",
  "--width N,S..E emits, for every i with i*N inside the stream, the part of [i*N+S, i*N+E) that lies inside the stream, in order and non-empty; --slice emits each distinct range once, in order of start, clipped to the stream. Both hold for any stream length and delivery, with e-anchored bounds resolved against the true length.",
  ["inputs","schedules","fault_sequences","configurations"], DELIV+"; any pitch and any S, E (before, after, wider or narrower than the pitch).",
  SAMPLE+"pitches and offsets larger than a block, and streams ending inside the lead-in or tail margin, are hardly sampled.",
  ["src/segment/stride.rs","src/segment/range.rs","src/mapper.rs"],
  [("stride generator with head/tail special cases","src/segment/stride.rs ConstSlicer"),("range slicer","src/segment/range.rs RangeSlicer")])
p("C08", "Find reports every leftmost non-overlapping occurrence and nothing else",
  "--find emits exactly the leftmost non-overlapping occurrences of the pattern in the stream, including those that straddle any read or buffer boundary.",
  ["inputs","schedules","fault_sequences"], DELIV+"; self-overlapping patterns, patterns longer than a read, matches at both ends.",
  SAMPLE+"expected values come from the same searcher on whole input with one consumer pattern.",
  ["src/segment/exact.rs"],
  [("overlap carry between blocks","src/segment/exact.rs ExactMatchSlicer::fill_segment_buf")],
  [("scanned","how far the buffer has been searched","src/segment/exact.rs")])
p("C09", "Walk splits the stream into the chunks its expressions compute",
  "--walk covers the stream from its first byte with consecutive chunks whose lengths are the values of the expressions evaluated at the chunk's start (bytes beyond the end read as zero), each expression giving one chunk per round and the last chunk clipped at the end. A length that is not positive ends the program with a nonzero status.",
  ["inputs","schedules","fault_sequences"], DELIV+"; any little-endian length fields of 1 to 8 bytes and any chunk size, including chunks larger than a block.",
  SAMPLE+"fixed length fields that never exceed the stream.",
  ["src/segment/walk.rs","src/eval.rs"],
  [("span fetcher with zero extension","src/segment/walk.rs SpanFetcher"),("chunk emission","src/segment/walk.rs WalkSlicer")])
p("C10", "Guide emits exactly the slices its records list",
  "--guide emits [offset, offset+length) for every record of the guide file, in order, clipped to the stream and dropping those that lie wholly outside, however the guide and the input are delivered.",
  ["inputs","schedules","fault_sequences"], DELIV+"; any sorted record list, overlapping or not, ending before, at or after the end of the input.",
  SAMPLE+"guides and streams are generated so that the guide always ends inside the stream and whole lines are visible.",
  ["src/segment/guided.rs","src/text/parser/mod.rs"],
  [("guide window over the stream","src/segment/guided.rs GuidedSlicer")])
p("C11", "Regex emits exactly the matches inside every slice",
  "--regex replaces every slice by the leftmost non-overlapping matches of the expression within that slice, at their true offsets and in order of offset, whether or not slices overlap or a slice is seen in several steps.",
  ["inputs","schedules","fault_sequences","configurations"], DELIV+"; overlapping, adjacent, empty and very long slices.",
  SAMPLE+"one slicer (width) and three patterns; slices carried over a refill are not checked.",
  ["src/segment/regex.rs"],
  [("match queue across refills","src/segment/regex.rs RegexSlicer")])
p("C12", "Invert and extend map slices to exactly the documented ranges",
  "--invert S..E,... replaces the slices by the gaps before, between and after them, and --extend S..E,... keeps the slices; each gap or slice is then mapped to every S..E range relative to its own start and end, clipped to the stream, without empty results and in offset order. This holds at both ends of the stream, with overlapping or empty slice lists and any delivery.",
  ["inputs","schedules","fault_sequences","configurations"], DELIV+"; any mapping that shrinks, grows, shifts or empties slices.",
  SAMPLE+"slices come from one regular slicer; mappings reaching back before already consumed data are sampled a few times.",
  ["src/segment/bridge.rs","src/segment/extend.rs","src/mapper.rs"],
  [("gap builder","src/segment/bridge.rs BridgeStream"),("mapping heap","src/segment/extend.rs ExtendStream"),("anchored mapping","src/mapper.rs SegmentMapper")])
p("C13", "Merge joins slices closer than N, and line selection keeps the chosen ones",
  "--merge N joins consecutive slices whose distance (negative if they overlap) is at most N, repeatedly, and leaves others alone; --lines keeps exactly the slices whose index lies in the union of the given ranges, with e-anchored indices counted from the true last slice.",
  ["inputs","schedules","fault_sequences","configurations"], DELIV+"; any slice lists, distances and index ranges, including merges that grow over the whole stream.",
  SAMPLE+"merge and line filters run over one regular slicer each; runs longer than a block are not reached.",
  ["src/segment/merge.rs","src/segment/filter.rs"],
  [("merge accumulator","src/segment/merge.rs MergeStream"),("index filter with tail margin","src/segment/filter.rs FilterStream")])
p("C14", "Printed records show every slice exactly and can be read back",
  "Every slice is printed as one record that gives its true offset, true length, all its bytes and their printable mosaic in the documented column layout for the chosen format (binary output is the bytes alone). Feeding such a hex dump back as input, or as a patch on the same stream, reproduces the original bytes.",
  ["inputs","schedules","fault_sequences","configurations"], DELIV+"; all formats and column widths, slices shorter or longer than the columns, on the scalar and the vector build.",
  "Formatter tests use hand-written buffers; no test closes the loop dump, reload, compare, and none on the slices real pipelines produce.",
  ["src/text/formatter/mod.rs","src/text/formatter/hex.rs","src/text/formatter/dec.rs","src/text/mod.rs","src/text/parser/mod.rs","src/drain/scatter.rs"],
  [("record formatter","src/text/formatter/mod.rs TextFormatter"),("offset bookkeeping","src/drain/scatter.rs ScatterDrain")])
p("C15", "Scattered output puts every slice into the file its template names",
  "With --output TEMPLATE each slice's formatted record goes to the file named by the template at that slice's byte offset and index; slices naming the same file are appended in order, a file left from before the run keeps none of its old content, and nothing goes to standard output unless the name is \"-\". If a file cannot be opened or written the program ends with a nonzero status.",
  ["inputs","schedules","fault_sequences","configurations"], DELIV+"; many files, shared names, pre-existing files, carry-over of slices between refills, open and write failures.",
  "Scatter tests write to /dev/null or one fresh file and do not look at the contents.",
  ["src/drain/scatter.rs","src/template.rs"],
  [("per-slice file dispatch","src/drain/scatter.rs ScatterContext::dump_segment"),("name rendering","src/template.rs")],
  [("files already created in this run","src/drain/scatter.rs","src/drain/scatter.rs ScatterContext.files")],
  observe=["the simulated file system after the run","exit status"])
p("C16", "Patch-back output equals the original patched by the command, always",
  "With --patch-back CMD the command receives exactly the formatted slices, once each and in order, and the output is the original stream with every record the command prints applied to it and all other bytes unchanged. The result is the same for every relative speed of the command, of the two internal threads and of the reader, and for every pipe buffering.",
  ["schedules","inputs","fault_sequences","programs"], "every interleaving of the formatting thread, the patching thread and the command; any pipe capacity and chunking; commands that filter, transform, buffer everything, answer late or stop reading early.",
  "No test runs patch-back at all; its outcome depends on thread scheduling that a test cannot choose.",
  ["src/drain/patch.rs","src/byte/tee.rs","src/byte/patch.rs"],
  [("formatter thread","src/drain/patch.rs PatchDrain::new"),("shared cache between writer and reader","src/byte/tee.rs"),("child pipes","src/drain/patch.rs BashPipe")],
  [("cache file and cursor","bytes seen by the formatter and not yet patched","src/byte/tee.rs TempFile")],
  observe=["stdout","data written to the command","exit status"])
p("C17", "A failure anywhere in patch-back is reported, not passed off as success",
  "If the command cannot be started, exits with a nonzero status or dies from a signal, prints an invalid record, or if reading, caching or piping fails in either thread, the program exits with a nonzero status within a bounded time. It never exits 0 with output that is truncated or mixed up.",
  ["fault_sequences","schedules","programs"], "any single or double fault at any operation of either thread, any exit code or signal of the command, at any point of its life.",
  "No test covers the failure paths of the threads or of the command.",
  ["src/drain/patch.rs","src/byte/tee.rs","src/main.rs"],
  [("thread join and exit status handling","src/drain/patch.rs PatchDrain::fill_buf")],
  observe=["exit status","stderr","stdout"])
p("C18", "In-place edit replaces each file by exactly its edited content, or not at all",
  "With --inplace every named file, each once however often it is named, ends up holding exactly what the same pipeline would print for it (in binary unless a format is given), and all other files stay as they were. If anything fails, the file being processed and those not yet reached keep their old content, the status is nonzero, and no temporary file is left behind.",
  ["inputs","histories","fault_sequences","configurations"], "any set of files and pipeline, any single fault at any file operation, pre-existing neighbours of any name.",
  "No test exercises --inplace; the failure order of create, write, flush, rename is not observable in unit tests.",
  ["src/main.rs"],
  [("temporary file then rename","src/main.rs main_impl")],
  observe=["the simulated file system after the run","exit status"])
p("C19", "A crash or power loss during in-place edit leaves the old or the new file",
  "If the process is killed or the machine loses power at any moment of an in-place edit, each named file afterwards holds either its complete old content or its complete new content. After a plain kill no other file has changed either, apart from a leftover temporary file of the interrupted edit.",
  ["crash_points","inputs","schedules","fault_sequences"], "every crash point between any two file operations, both process kill and power loss, and for power loss every order in which unsynced data and directory changes may have reached the disk.",
  "A test cannot stop the process between two system calls nor lose unsynced data.",
  ["src/main.rs"],
  [("write temporary, make durable, rename","src/main.rs main_impl")],
  observe=["the simulated disk after recovery"])
p("C20", "Read errors are reported and interrupted reads are retried",
  "A read that fails for any input, patch or guide file makes the program exit with a nonzero status and a message, and what was printed before it is a prefix of the correct output; a file that cannot be opened is reported before anything is printed. A read merely interrupted by a signal, or returning fewer bytes than asked, changes nothing at all.",
  ["fault_sequences","inputs","configurations"], "the n-th read of any source failing, for every n; any mixture of interruptions and short reads; any pipeline above them.",
  "The mock source never fails.",
  ["src/byte/raw.rs","src/main.rs","src/byte/cat.rs","src/byte/zip.rs"],
  [("read call and error propagation","src/byte/raw.rs RawStream::fill_buf")],
  observe=["exit status","stderr","stdout prefix"])
p("C21", "Output is complete or the failure is reported; a closed pipe ends quietly",
  "If the exit status is 0 and the reader has not gone away, every output byte has been accepted by the operating system, however writes are shortened or interrupted. A full disk or any other write error, at any byte including the last, gives a nonzero status and a message; a reader that closes the pipe makes the program stop promptly without a message and without failure status.",
  ["fault_sequences","inputs","configurations"], "the n-th write failing for every n, any shortening or interruption of writes, standard output closed after any number of bytes.",
  "Tests never write through the program's real output path.",
  ["src/main.rs"],
  [("output loop","src/main.rs consume_stream"),("error classification","src/main.rs main")],
  observe=["exit status","stderr","stdout"])
p("C22", "The pager receives exactly the output and is waited for",
  "When a pager is in use (--pager, $PAGER, or the default when standard output is a terminal) it receives exactly the bytes that would have gone to standard output followed by end of file, and the program does not end before the pager has. A pager that quits early ends the program quietly, and a pager that cannot be started is reported with a nonzero status.",
  ["schedules","programs","configurations","fault_sequences"], "every interleaving of the program and the pager, pagers that read slowly, quit early, or linger after end of input.",
  "No test starts a pager.",
  ["src/main.rs"],
  [("pager spawn and wait","src/main.rs build_drain, main_impl")],
  observe=["data delivered to the pager","process lifetimes","exit status"])
p("C23", "Every run on finite input ends, and a closed output stops endless input",
  "On finite inputs and a command or pager that itself makes progress, every run finishes within a bounded number of steps under every schedule, without deadlock and without a busy loop. When the consumer of the output goes away, a run on endless input also finishes within a bounded number of further steps.",
  ["schedules","fault_sequences","programs","configurations"], "every interleaving and pipe capacity, commands that write before reading, read everything first, ignore their input or stay silent; any pipeline.",
  "Tests run one schedule and would only hang.",
  ["src/drain/patch.rs","src/byte/tee.rs","src/main.rs","src/streambuf.rs"],
  [("thread and pipe topology","src/drain/patch.rs"),("fill/consume progress","src/streambuf.rs")],
  observe=["termination within the step bound"])
p("C24", "Streaming pipelines use bounded memory and bounded lookahead",
  "For pipelines whose slices and anchors need only local context, peak memory does not grow with the length of the input, and output for data already delivered appears after reading only a bounded amount beyond it. End-anchored ranges may hold back no more than the distance they name from the end.",
  ["inputs","configurations","schedules"], "inputs many times larger than the bound, endless inputs, for every stage that needs only local context.",
  "Tests use inputs smaller than one buffer and do not measure memory or lookahead.",
  ["src/streambuf.rs","src/byte/cut.rs","src/segment/stride.rs","src/segment/exact.rs","src/segment/regex.rs","src/drain/scatter.rs"],
  [("buffer compaction on consume","src/streambuf.rs consume"),("max_consume limits","src/segment/*.rs")],
  observe=["peak allocated bytes","bytes read when a given output byte is written"])
p("C25", "Any combination of options equals its stages applied in the documented order",
  "For every accepted combination of options the output equals the composition of the individual stages in the order the help gives (input construction, cut, pad, patch, slicing, regex, invert, extend, merge, lines, formatting), whatever the order on the command line. The result is the same for every delivery, block size and build.",
  ["configurations","inputs","schedules","fault_sequences"], "every combination of stages with every delivery of every source.",
  "Stages are tested one by one over mock sources; their combinations are not tested beyond a few.",
  ["src/pipeline.rs","src/segment/mod.rs","src/byte/mod.rs"],
  [("pipeline construction","src/pipeline.rs Pipeline::from_args, spawn_stream")])
p("C26", "Nothing but the designated outputs is created, changed or removed",
  "A run modifies only its standard streams, the files its --output names designate, and with --inplace the named inputs; every other file keeps its content and no new file remains, on success and on any failure. Inputs, patch and guide files are never modified otherwise.",
  ["configurations","fault_sequences","inputs"], "every pipeline and every fault, with bystander files of arbitrary names next to the operands, including names the program might use for temporaries.",
  "Tests do not look at the file system around the files they use.",
  ["src/main.rs","src/drain/scatter.rs","src/byte/tee.rs"],
  [("temporary file naming","src/main.rs main_impl"),("output file opening","src/drain/scatter.rs")],
  observe=["the whole simulated file system before and after"])
p("C27", "Arithmetic expressions evaluate by the documented operator rules",
  "Integer expressions in options evaluate with the documented operators, precedence, literals and suffixes, and malformed ones are rejected.",
  ["inputs"], "every expression text.", "Only sampled expressions are tested.",
  ["src/eval.rs"], [("tokenizer and reverse Polish evaluator","src/eval.rs")], hook="none")
p("C28", "Contradictory options are rejected before anything is touched",
  "Mutually exclusive options, standard input named more than once, or values out of range are rejected with a nonzero status before any file is opened for writing.",
  ["configurations"], "every option combination.", "The command line as a whole is not tested.",
  ["src/main.rs","src/pipeline.rs"], [("exclusivity checks","src/pipeline.rs from_args"),("stdin count","src/main.rs")], observe=["exit status","file system"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        assert x["statement"].replace("... ","").count(". ") <= 2, x["id"]
        f.write(json.dumps(x) + "\n")
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x, s)
except ImportError: pass
