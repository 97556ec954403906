#!/usr/bin/env python3
"""One-off helper: writes /verif/properties.jsonl (kept so that the file can be edited comfortably)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "The line reader loses, invents and misnumbers nothing",
 "For every byte stream, and however the underlying reader cuts it into reads, iterating a log yields exactly the non-empty pieces obtained by cutting the stream at line feeds and at literal \\n escapes (a backslash followed by n that is not itself escaped), in order, byte for byte, each with the 1-based number of the physical line it belongs to. When JSON splitting is on, the characters , [ ] { } outside double-quoted strings cut too. Only pieces longer than 6000 bytes are left out, and leaving one out changes neither the pieces around it nor any later line number.",
 ["inputs", "schedules"], "all byte streams, all ways the reader can return them (short reads, any boundary), both splitting modes",
 "Two unit tests feed four short in-memory strings through a single full read; no test has a line crossing a read boundary, a long line, a split escape or a short read.",
 ["iterator/src/iterator.rs"],
 [("separator scan with resumable position and escape state", "iterator/src/iterator.rs find_next_line"), ("buffer refill / over-long line drain", "iterator/src/iterator.rs read_slice, drop_until_next_line")],
 [("escape and JSON string flags", "carried across read boundaries", "iterator/src/iterator.rs"), ("line counter", "physical line of the piece being scanned", "iterator/src/iterator.rs update_line_counter")],
 ["items returned by the BytesLines iterator"])

prop("C02", "The line reader is bounded and surfaces read errors",
 "Reading a log needs memory and stack bounded by a constant, however long the stream, however long its longest line and however many blank lines or separators follow one another, and the iteration ends when the stream ends. A read error is handed to the caller as an error, once per failed read, and is never turned into an end of file; if the caller goes on after a transient error, the pieces it receives are those of the stream without the error, with no made-up bytes.",
 ["inputs", "fault_sequences"], "all streams including hostile ones (one huge line, only separators), all positions and kinds of read errors",
 "No test injects a read error, and the largest test input is below 100 bytes.",
 ["iterator/src/iterator.rs"],
 [("line length limit and buffer reuse", "iterator/src/iterator.rs get_slice"), ("error pass-through", "iterator/src/iterator.rs read_slice, drop_until_next_line")],
 [], ["items returned by the iterator", "heap high-water mark (counting allocator)", "stack of the calling thread"])

prop("C03", "Tokenizing never fails and is a pure function of the line",
 "Tokenizing any Unicode line, however adversarially composed (the reader hands over at most 6000 bytes; checked up to 16 KiB), returns normally within the default thread stack of 2 MiB. The result depends only on the line (not on earlier calls or on other threads), ignores leading and trailing white space, has no leading or trailing white space itself, and its size is linear in the size of the line.",
 ["inputs", "schedules"], "all Unicode strings, concurrent callers",
 "The tests tokenize about eighty hand-written ASCII lines from one thread.",
 ["tokenizer/src/tokenizer.rs"],
 [("recursive word splitter, each step on a strictly shorter word", "tokenizer/src/tokenizer.rs do_process"), ("lazily built regular expressions shared by all threads", "tokenizer/src/tokenizer.rs")],
 [], ["return value of the tokenizer entry point"])

prop("C04", "Volatile values never influence a line's tokens",
 "Replacing, anywhere in a line, a volatile value by another value of the same kind and similar size (on the same side of the 25, 32 and 64 character thresholds) leaves the tokens of the line unchanged. The kinds are: decimal numbers and digits inside a word, dates, times and full day or month names, IPv4, IPv6 and MAC addresses, UUIDs and hexadecimal ids, sha/md5/hash-prefixed digests and 64+ character tokens, http/https/ftp/ssh URLs, temporary-directory paths, base64 blobs of more than 24 characters or ending in ==, request cookies (req-, tx, tap, AUTH_, gAAAA), process ids in brackets, refs/ and commit ranges, words with odd characters, dash-separated generated names, and values assigned to keys whose name contains id, key, ref, region, token, secret or password. This holds whether the value stands alone, is quoted or bracketed, or is the value of a key=value or key:value pair.",
 ["inputs"], "all lines, all positions, all pairs of values of one kind",
 "The tests compare about thirty fixed pairs of lines; every kind is represented by one or two values in one syntactic position.",
 ["tokenizer/src/tokenizer.rs"],
 [("literal classes", "tokenizer/src/tokenizer.rs parse_literal"), ("number removal, pid trimming, key/value handling", "tokenizer/src/tokenizer.rs do_process")],
 [], ["return value of the tokenizer entry point"])

prop("C05", "Tokenizing keeps the wording that tells messages apart",
 "In a line of at least two words that matches none of the built-in noise filters, every ordinary word (4 to 24 letters, or up to 31 letters, dots and underscores, not a day or month name, not made only of hexadecimal digits, not starting with a cookie or tmp prefix) appears in the tokens unchanged and in order, also when joined to others by / - | ( [ @ (joined words of at most 24 characters in all) or used as key or value of a pair whose key is not an identifier-like name. Words that announce a problem (error, fatal, failure, failed, warning, err, fail, warn, denied, assert, assertion, non-zero, exception, traceback, in any case) weigh five times as much as an ordinary word, and lines that differ in an ordinary word never get the same tokens. The noise filters drop only single-word lines and the known noise shapes (HTTP root probes, mirror lists, ovs/iptables listings, chrony, memcached and shell echo lines, key randomart).",
 ["inputs"], "all lines made of ordinary words and joiners, all near-misses of the special classes",
 "Tests check fixed lines with fixed outputs; none checks that near-misses of the volatile classes (mayor, errors, failing, shadow) survive.",
 ["tokenizer/src/tokenizer.rs"],
 [("anchored class expressions", "tokenizer/src/tokenizer.rs is_date, is_error, is_hash, is_uid, is_cookie"), ("global filter", "tokenizer/src/tokenizer.rs global_filter"), ("error amplification", "tokenizer/src/tokenizer.rs push_error")],
 [], ["return value of the tokenizer entry point"])

prop("C06", "Index distances are cosine distances, whichever implementation is used",
 "For any list of baseline lines and any target line, the distance returned is one minus the largest cosine similarity between the target's set of space-separated words and each baseline's, clipped to at most 1 (no baseline: 1), up to float rounding and rare hash collisions; a target equal to a baseline is at distance 0. The single-line, matrix and chunked-matrix searches agree, results come one per target in target order, splitting the baselines into chunks or reordering them changes nothing, and serializing and reloading a matrix preserves every distance.",
 ["inputs", "configurations"], "all baseline and target lists (empty, duplicated, large), all chunkings",
 "Three tests with three baseline lines each.",
 ["index/src/index.rs"],
 [("hashing vectorizer", "index/src/index.rs vectorize"), ("normalized sparse matrix product", "index/src/index.rs create_mat, cosine_distance, cosine_distance_chunk"), ("matrix serialization", "index/src/index.rs save_mat, load_mat")],
 [], ["distances returned by the index API"])

prop("C07", "Content already in the baselines is never reported",
 "Inspecting content against a model trained on that same content reports no anomaly, for every set of log files (any sizes, blank and repeated lines, JSON or text, nested directories). The same holds when the target repeats or reorders baseline lines, or differs from them only in volatile values.",
 ["inputs", "histories"], "all file sets, all line orders and repetitions, all volatile substitutions",
 "One test trains on two lines and checks two others; nothing crosses a 512-line chunk or involves several files.",
 ["model/src/process.rs", "model/src/model.rs", "tokenizer/src/tokenizer.rs", "index/src/index.rs"],
 [("training deduplication and chunking, including the last partial chunk", "model/src/process.rs ChunkTrainer"), ("same splitting and tokenizing for training and inspection", "model/src/model.rs Index::train, get_processor"), ("group lookup", "model/src/model.rs get_index")],
 [], ["anomalies of the report"])

prop("C08", "Every novel line is reported exactly once, at the right place",
 "Inspecting a target reports exactly the lines whose distance to the baselines of their file group exceeds 0.3, each distinct tokenized line once per group of similarly named files, at its first occurrence. Each anomaly carries the line's exact text, its 1-based line number and its distance, and anomalies come in file order, wherever the line falls relative to internal chunk boundaries and however many duplicates surround it. Lines from the analysis tool's own log-classify task marker on are not inspected.",
 ["inputs", "histories"], "all targets and baselines, all positions relative to chunk boundaries, all duplicate runs",
 "One unit test with six lines; no test has more than one chunk, more than one file or a duplicate run.",
 ["model/src/process.rs", "model/src/model.rs"],
 [("chunked search over unique lines with coordinates into the raw buffer", "model/src/process.rs read_anomalies, do_search_anomalies"), ("unique-line set shared by one group", "model/src/model.rs report")],
 [("skip set", "tokenized lines already searched in the group", "model/src/process.rs"), ("buffer and target coordinates", "raw lines since the last search and which of them were searched", "model/src/process.rs")],
 ["anomalies returned by the processor and by the report"])

prop("C09", "Anomaly contexts are the true neighbouring lines, without overlap",
 "The lines shown before an anomaly are exactly the lines immediately preceding it in the file, up to three and not reaching back over lines already shown; the lines shown after it are exactly those immediately following it, up to three, stopping at the next anomaly or the end of the file. So reading all contexts and anomalies in order gives lines of the file in strictly increasing position, no line twice, independent of chunk boundaries.",
 ["inputs", "histories"], "all targets, all spacings of anomalies, all positions relative to chunk boundaries and the end of the file",
 "Two tests with five and six lines; none reaches a chunk boundary through the public API.",
 ["model/src/process.rs"],
 [("context collection with left-over lines of the previous chunk", "model/src/process.rs collect_before, reset"), ("pending anomaly carried over chunks", "model/src/process.rs do_search_anomalies")],
 [("left-over lines", "lines of the previous chunk available as before-context", "model/src/process.rs"), ("pending anomaly", "anomaly whose after-context is still open", "model/src/process.rs")],
 ["before/after lists of reported anomalies"])

prop("C10", "A report accounts for every source and its totals add up",
 "In a report every source of the target is accounted for exactly once: inspected with the index of its group, listed as unreadable (it cannot be opened, fails while being read, or is not valid UTF-8), or listed as having no matching baseline; the anomalies in the lines before bytes that are not valid are listed all the same, and one unreadable source never hides another. The total line count is the number of lines inspected over all inspected sources, the total anomaly count is the number of anomalies listed, per-source line and byte counts are those of the file, and every index with anomalies names exactly the baseline sources it was trained on. A model with a single index applies it to any source.",
 ["inputs", "fault_sequences"], "all target trees, all combinations of unreadable, unmatched and readable sources",
 "No test calls the report function at all.",
 ["model/src/model.rs", "model/src/process.rs"],
 [("per-group, per-source loop with error lists", "model/src/model.rs report"), ("lookup with single-index fallback", "model/src/model.rs lookup_or_single"), ("line and byte counters", "model/src/process.rs")],
 [], ["fields of the report"])

prop("C11", "Every relevant file of a directory is found once, noise files are not",
 "The sources of a directory are exactly its regular, non-symlink files at any depth, each once, minus the files ignored by name: known binary, font and configuration suffixes, known generated or credential files (each also with a .gz suffix; upper and lower case differ), and anything below an etc directory. Each source has the directory's path cut off consistently whether or not the directory was given with a trailing slash, and grouping sources for training puts every source of every baseline in exactly one group.",
 ["inputs", "configurations"], "all directory trees, all file names including non-UTF-8 ones, all excluded name patterns",
 "The only test groups a fixed list of paths without touching the file system.",
 ["model/src/files.rs", "model/src/model.rs"],
 [("directory walk and filter", "model/src/files.rs dir_iter, keep_path"), ("ignored names", "model/src/model.rs is_valid"), ("grouping", "model/src/model.rs group_sources")],
 [], ["lists returned by get_sources and group_sources"])

prop("C12", "Index names unite rotations of a log and separate different logs",
 "Two files get the same index name when their immediate parent directory and file name differ only in digits, in a rotation or date suffix, in a .gz suffix (alone or after a rotation suffix), or in a seven-character commit-hash directory between the file and its named directory. Files of one Kubernetes service (k8s_NAME-...), persistent volume (pvc-...), pod of one service (pod/NAME-...) or qemu instance share a name whatever their ids. Files whose letters differ in the name or in the immediate parent directory get different names, and the name depends on nothing above the named directory.",
 ["inputs"], "all paths",
 "About ten fixed paths are tested, none with a rotated and compressed name.",
 ["model/src/files.rs"],
 [("name normalization", "model/src/files.rs IndexName::from_path"), ("special cases", "model/src/files.rs is_small_hash, is_k8s_service, take_until_pod_uuid")],
 [], ["index name returned for a path", "groups of group_sources"])

prop("C13", "Saved models and reports are complete, faithful or rejected",
 "When saving a model or a report succeeds, loading the file gives one with the same content: the model yields the same anomalies, distances and counts for every target, the report has the same fields. When any write fails (disk full, size limit), saving returns an error, and a file cut off at any byte by a crash is rejected by loading with an error, or loads to the complete content, but never crashes the loader nor yields different content.",
 ["inputs", "crash_points", "fault_sequences"], "all models and reports, all truncation points, a write failure at any byte",
 "No test saves or loads a model or a report.",
 ["model/src/model.rs"],
 [("gzip + binary serialization, finished explicitly", "model/src/model.rs Model::save, Model::load, Report::save, Report::load")],
 [], ["results of save and load", "report of the loaded model"])

prop("C14", "Gzip-compressed logs behave exactly like their plain content",
 "A local log compressed as FILE.gz gives, as baseline and as target, the same anomalies, line numbers, contexts and counts as the plain file with the same content. A .gz file that is truncated or corrupt is reported as unreadable rather than silently treated as a shorter log or as text.",
 ["inputs", "fault_sequences"], "all contents and compression levels, all truncation points and header corruptions",
 "No test opens a compressed file.",
 ["model/src/reader.rs", "model/src/files.rs"],
 [("decompression chosen by extension", "model/src/reader.rs from_path")],
 [], ["report over compressed and plain trees"])

prop("C15", "A cache hit returns the complete remote content or there is no hit",
 "While remote content is being cached the reader sees the remote bytes unchanged. Afterwards a lookup for the same location either misses or returns exactly the complete content: if reading stopped early, the remote failed, the local write failed or the process died at any point, the partial data is never served as if it were the whole, and the location can be cached again.",
 ["inputs", "crash_points", "fault_sequences", "schedules"], "all contents, all read sizes, an interruption at any byte, concurrent writers of one location",
 "One test caches a four-byte string read to the end.",
 ["cache/src/cache.rs", "model/src/reader.rs"],
 [("tee reader to a compressed local file, published on completion", "cache/src/cache.rs CacheReader, remote_add, remote_get")],
 [], ["bytes returned by the caching reader and by later lookups"])

prop("C16", "Cache entries never alias and listings round-trip",
 "A directory listing put in the cache is returned unchanged, and a cached availability answer is returned as stored. Entries of different locations, of different bases, or of different kinds (content, listing, availability) never answer for one another, dropping one removes only that one (dropping a missing one is no error), and the cache writes nothing outside its own cache directory.",
 ["inputs", "histories"], "all URLs (hostile characters, very long, path-like), all interleavings of add, get and drop",
 "One test adds and reads back one listing.",
 ["cache/src/cache.rs"],
 [("hashed file names with a kind prefix", "cache/src/cache.rs filename"), ("existence checks", "cache/src/cache.rs get, create")],
 [], ["results of the cache API against a map model", "files created under the cache home"])

prop("C17", "Crawling a site lists every file exactly once and terminates",
 "For any finite site of index pages, each linking an entry once, crawling a start location returns every file linked below it exactly once, whatever the order and delay of the responses, through the list call and through the streaming iterator alike. Sort links, parent, self and upward links never cause a page to be fetched again or the crawl to leave the start location, etc directories are skipped, and the crawl ends. A page that cannot be fetched is reported as an error; in the streaming iterator the other files are still delivered.",
 ["inputs", "schedules", "fault_sequences"], "all page trees, all response orders and delays, connection failures on any page",
 "The only test has two pages, is excluded as flaky, and checks one instant-response server.",
 ["httpdir/src/httpdir.rs"],
 [("worker pool with one message channel", "httpdir/src/httpdir.rs Crawler::process"), ("path-length visitor", "httpdir/src/httpdir.rs Visitor"), ("termination detection of the iterator", "httpdir/src/httpdir.rs CrawlerIter")],
 [("message channel and worker counts", "decide when the crawl is over", "httpdir/src/httpdir.rs")],
 ["URLs returned", "requests seen by the server"])

prop("C18", "The HTML report shows every line as text and nothing else",
 "Rendering any report succeeds and shows, per source, every anomaly and every context line exactly once and in order, with the anomaly's own line number and consecutive context numbers around it (for files without multi-part lines), and the totals of the report. Log lines, file names and locations appear as text or as one attribute value exactly as they are: whatever characters they contain, they never create or close an element, add an attribute or vanish.",
 ["inputs"], "all reports: any line text and file name, anomalies at any line number including pieces of one physical line",
 "No test renders a report.",
 ["report/src/report.rs"],
 [("element builder with explicit escaping", "report/src/report.rs"), ("line numbering of contexts", "report/src/report.rs render_lines, render_context")],
 [], ["parsed HTML of the rendered report"])

prop("C19", "The command line prints what the analysis found and fails cleanly",
 "For local targets the diff and path commands print every anomaly of every source once, with its own line number and text, and context lines with the numbers of the physical lines they come from (for files without blank or multi-part lines); sources without baseline or unreadable are named and do not stop the others. Giving a model file stores the model on the first run and using it later prints the same result; a report file contains the same anomalies. Commands exit with 0 exactly when the analysis was carried out, and with an error message and non-zero status, never a crash, otherwise.",
 ["inputs", "configurations", "histories"], "all baseline/target pairs, all command combinations, missing or unreadable inputs",
 "No test runs the command line program.",
 ["cli/src/main.rs", "cli/src/dataset.rs"],
 [("live printing", "cli/src/main.rs process_live"), ("model and report dispatch", "cli/src/main.rs process")],
 [], ["stdout, exit status and files written by the program"])

prop("C20", "Baseline discovery picks the best usable successful build",
 "For a Zuul build, baseline discovery asks for successful builds of the same job and picks one whose logs are reachable, that is not the build itself, and that no other reachable candidate beats: the same change is a last resort (before builds that are up to 300 days older, at least), and another change of the same project, the same branch, a gate or periodic pipeline, voting and having ended recently (today at the latest) each count in favour. Builds lacking a log location, a reference or a change are skipped, unreachable ones passed over, and if nothing is left, or the service answers garbage, an error results, never a crash.",
 ["inputs", "fault_sequences"], "all build lists the service can return, all subsets of reachable logs",
 "One test resolves a single build; discovery is not tested.",
 ["model/src/zuul.rs", "model/src/reader.rs"],
 [("score", "model/src/zuul.rs baseline_score"), ("selection pipeline", "model/src/zuul.rs discover_baselines"), ("availability probe", "model/src/reader.rs head_url")],
 [], ["discovered baseline content", "requests seen by the service"])

prop("C21", "Zuul answers decode entry by entry and URLs resolve to the right build",
 "Decoding a list of builds returns every well-formed build, in order and with the field values of the document, and skips the ill-formed ones; encoding a build and decoding it again gives the same build. A web page URL of a build, multi-tenant (.../t/TENANT/build/ID) or not (.../build/ID), is resolved through that site's API for exactly that build, any other URL is not taken for a build, and a malformed or incomplete answer is an error, never a crash.",
 ["inputs"], "all JSON documents, all URLs",
 "One test decodes one well-formed build, two check one URL each.",
 ["zuul/src/zuul-build.rs", "model/src/zuul.rs", "model/src/urls.rs"],
 [("per-entry decoding", "zuul/src/zuul-build.rs decode_builds"), ("URL recognition", "model/src/zuul.rs get_zuul_api_url")],
 [], ["decoded builds", "content of a URL and requests seen by the server"])

prop("C22", "Remote content is analysed exactly like the same content on disk",
 "A report over an HTTP directory or file, as baseline and as target, has the same anomalies, line numbers, contexts and counts per relative path as the report over a local copy of the same tree, gzip files included (sent with Content-Encoding: gzip, as log servers do). This holds with the content cache off, cold and warm; a warm cache needs no further content requests; and a connection that breaks in the middle of the body of a target makes that source unreadable instead of shorter, as does a cache entry that was cut short. A broken baseline body is learned up to the break, is not cached as complete, and is complete again on the next run.",
 ["inputs", "configurations", "fault_sequences"], "all trees, cache off/cold/warm, response cut at any byte",
 "No test analyses remote content.",
 ["model/src/urls.rs", "model/src/reader.rs", "cache/src/cache.rs", "httpdir/src/httpdir.rs"],
 [("remote source listing with relative prefix", "model/src/urls.rs httpdir_iter, url_open"), ("cache dispatch", "model/src/reader.rs from_url")],
 [], ["report over the HTTP tree versus over the local tree", "requests seen by the server"])

prop("C23", "Archived models keep their meaning",
 "A model file archived by this release can be loaded by the current code and gives the archived verdicts: the same anomalies with the same distances on the same targets. In particular the file format, the tokens of a line and the features of a word do not change silently under existing archives.",
 ["histories", "inputs"], "all archived models and all targets",
 "Tests compare tokens of a handful of fixed lines and never load an archive.",
 ["model/src/model.rs", "tokenizer/src/tokenizer.rs", "index/src/index.rs"],
 [("serialized layout", "model/src/model.rs Model"), ("tokenizer", "tokenizer/src/tokenizer.rs process"), ("word hash", "index/src/index.rs vectorize")],
 [], ["report of a committed archive over a committed corpus"])

prop("C24", "The Python module agrees with the library and is memory safe",
 "The Python functions for tokenizing, indexing, searching and generating lines return what the Rust library returns for the same arguments, and a saved and reloaded matrix searches identically. Passing a model of the wrong kind, a foreign capsule or a damaged buffer raises a Python exception; it never corrupts memory or kills the interpreter.",
 ["inputs", "histories"], "all argument values, all sequences of calls including wrong model kinds and collected models",
 "The Python module has no tests.",
 ["python/src/bindings.rs", "index/src/index.rs"],
 [("capsules holding native models", "python/src/bindings.rs")],
 [], ["return values and exceptions in a Python interpreter, AddressSanitizer reports"])

prop("C25", "Every input string becomes the right kind of content or a clean error",
 "A string starting with http:// or https:// (exactly so) denotes a URL: a location ending in / is a remote directory and anything else a remote file (build pages apart). Every other string denotes a local path: an existing directory or regular file becomes that content, whatever its name (including names that start with http), and discovery for a file uses the file of the same name with .0 appended. Anything else (missing path, malformed URL, content without baselines) is reported as an error, never a crash.",
 ["inputs"], "all strings, all file system states",
 "No test converts an input.",
 ["model/src/model.rs", "model/src/files.rs", "model/src/urls.rs"],
 [("input classification", "model/src/model.rs Input::from_string, Content::from_input"), ("path and URL conversion", "model/src/files.rs from_path, model/src/urls.rs from_url")],
 [], ["content or error returned"])

prop("C26", "Verdicts depend only on the set of baseline lines and shrink as it grows",
 "Training on the same lines in another order, repeated, or distributed over other files of the same group gives the same anomalies, distances and contexts for every target. Adding baseline lines or files to a group never increases the distance of a target line, so it never turns an unreported line into an anomaly; unreadable bytes at the end of one baseline file do not affect what was learned from the other baselines.",
 ["inputs", "histories", "fault_sequences"], "all baseline sets, all orders, partitions and supersets",
 "No test trains twice or on several files.",
 ["model/src/process.rs", "model/src/model.rs", "index/src/index.rs"],
 [("deduplicated, chunked training shared by the files of a group", "model/src/process.rs ChunkTrainer"), ("per-group training", "model/src/model.rs Index::train, Model::train"), ("minimum over chunks", "index/src/index.rs cosine_distance_chunk")],
 [], ["reports of models trained on rearranged baselines"])

prop("C27", "The test command accepts exactly the datasets whose anomalies are as described",
 "Given datasets (directories with a .good file, a .fail file and an inf.yaml), the test command exits with 0 only if, in every one of them, the anomalies of the .fail file against the .good file are as many as the description lists and contain the described lines in that order. A missing, malformed or differing description, a missing or unreadable .fail file give an error and a non-zero exit, never a crash. The debug commands show what the library computes.",
 ["inputs"], "all datasets and descriptions",
 "No test runs the test command.",
 ["cli/src/dataset.rs", "cli/src/main.rs"],
 [("dataset evaluation", "cli/src/dataset.rs"), ("debug commands", "cli/src/main.rs")],
 [], ["exit code, standard output and standard error of the process"])

prop("C28", "Analyses in one process do not influence each other and never race",
 "What an analysis (tokenizing, indexing, training, reporting, saving and loading, crawling and reading a site, finding baselines, rendering) returns depends only on its inputs: not on the analyses that the process did before, nor on those that run at the same time on other threads, even when they have the same paths and locations, nearly the same lines, or use one model, index, crawler or content cache. No two threads access memory without synchronisation.",
 ["schedules", "histories", "inputs"], "all sequences and all interleavings of analyses in a process",
 "Each test runs one analysis, and looks at its own result only; a result kept by a too small key or for another analysis shows only in the next one, a race only in some schedules.",
 ["index/src/index.rs", "tokenizer/src/tokenizer.rs", "model/src/model.rs", "model/src/process.rs", "model/src/reader.rs", "model/src/urls.rs", "cache/src/cache.rs", "httpdir/src/httpdir.rs", "zuul/src/zuul-build.rs", "report/src/report.rs"],
 [("patterns compiled once and shared", "tokenizer/src/tokenizer.rs"), ("per-thread state of the crawler", "httpdir/src/httpdir.rs"), ("content published once complete", "cache/src/cache.rs")],
 [("CACHE", "the process-wide handle on the content cache", "model/src/reader.rs"), ("IndexMap, skip lines", "what a model and an analysis keep", "model/src/model.rs")],
 ["results of each analysis alone in a fresh process, after others, beside others", "ThreadSanitizer reports"])

prop("C29", "The command line analyses build pages and remote locations end to end",
 "Run on a build page, a remote directory or a remote file, as target, baseline or source of a model, the command line program shows what the analysis of the same files on disk shows: it takes the right baseline build whatever other builds there are, fetches what is needed, uses a kept model without asking for its baselines again, and a warm cache instead of the network. What cannot be read is named and the rest is shown; when there is no result it fails with a message and leaves no model or page behind.",
 ["inputs", "histories", "fault points"], "all builds, neighbouring builds and remote trees; all sequences of runs with kept models and caches; all places where an answer breaks off or is unusable",
 "The tests call single functions with one canned answer; the path from a build page to the shown lines crosses all crates, several processes and the files kept between them.",
 ["cli/src/main.rs", "model/src/zuul.rs", "model/src/urls.rs", "model/src/model.rs", "model/src/reader.rs"],
 [("url, diff and train commands", "cli/src/main.rs"), ("baseline discovery", "model/src/zuul.rs"), ("remote content", "model/src/urls.rs")],
 [("model file", "kept between runs", "model/src/model.rs"), ("cache directory", "kept between runs", "cache/src/cache.rs")],
 ["exit code, output and files of the process", "request log of the mock service"])

prop("C30", "What an analysis needs does not grow with the length of the logs",
 "The memory that training and inspecting need, and the size of the model, follow the distinct lines (after tokenizing) and the anomalies of the logs, not their length: repeated lines, lines that differ in volatile values only, blank lines, floods of separators, over-long lines and compressed bombs cost nothing further, in the baselines and in the target, in local files, compressed files and remote ones.",
 ["inputs"], "all logs, of any length",
 "The largest log of the tests has a few lines; what is kept per line shows only in the use of memory by long ones.",
 ["model/src/process.rs", "model/src/model.rs", "model/src/reader.rs", "model/src/urls.rs", "index/src/index.rs", "iterator/src/iterator.rs"],
 [("lines are learned once", "model/src/process.rs ChunkTrainer"), ("the buffer of a target is emptied although it has no new lines", "model/src/process.rs ChunkProcessor"), ("content is read and unpacked piece by piece", "model/src/reader.rs")],
 [("skip_lines, baselines, buffer, left_overs", "what is kept of the lines read", "model/src/process.rs")],
 ["heap high-water mark while training and reporting, size of the saved model"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
