#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=mech, observe_at=observe, hook_needed=hook)))
def m(name, where): return dict(name=name, where=where)
FC = "src/fpfind/freqcd.c"; PT = "src/fpfind/lib/parse_timestamps.py"; PE = "src/fpfind/lib/parse_epochs.py"
UT = "src/fpfind/lib/utils.py"; FP = "src/fpfind/fpfind.py"; GT = "src/fpfind/lib/generate_freqcd_testcase.py"
NOT = "The only freqcd test fails in this repository and feeds three events in one write; none reaches "

prop("C01", "freqcd: every event passes through exactly once, in order",
 "Every complete 8-byte event that freqcd reads from its input appears exactly once in its output, in input order, with its ten low-order (detector/pattern) bits unchanged, in both the normal and the legacy (-x) word order. This holds however the bytes are fragmented, delayed, bunched or interleaved with idle periods, slow consumers, correction updates and the end of the correction stream. A trailing incomplete event is never emitted.",
 ["schedules", "inputs", "histories"], "All input byte streams, all splits of them into reads (any byte boundary), all arrival times, all interleavings with the correction stream.",
 NOT + "a partial read, an idle timeout, a full buffer or a second input stream.",
 [FC], [m("partial-event carry-over (inbytespartial)", FC + " main loop head"), m("outevents/eventnum reset after write", FC + " write-out block")],
 ["bytes accepted by the output descriptor vs bytes returned by the input descriptor"],
 [dict(name="inbuffer/inbytesread", meaning="unprocessed bytes", where=FC), dict(name="outbuffer/outevents/eventnum", meaning="events awaiting write", where=FC)])
prop("C02", "freqcd: constant-offset correction law independent of delivery",
 "With a constant offset f (units of 2^-34, or 0.1 ppb converted with -d), an event measured at t leaves with t + f*(t - t0)*2^-34, t0 being the first event, up to a rounding error of at most 3 device units (12 ps) that does not grow with the length of the run or the number of reads; with f = 0 the timestamps are unchanged. Apart from that rounding, the result does not depend on how the input was fragmented into reads, on reads that deliver no complete event, or on idle time.",
 ["schedules", "inputs"], "All offsets in range, all sorted event sequences, all fragmentations of the byte stream including reads shorter than one event.",
 NOT + "more than one read, a read that ends inside an event, or a negative offset.",
 [FC], [m("per-batch reference timestamp and accumulated correction", FC + " digest events / update reference timestamp")],
 ["timestamp field of output events"], [dict(name="tsref, tsoverflowcorr", meaning="reference point and accumulated correction", where=FC)])
prop("C03", "freqcd: live offset updates act forward only, without jumps",
 "When offsets arrive on the correction stream (-F), the accumulated correction is continuous: between consecutive received batches it grows by f*(elapsed device time)*2^-34, where f is the last valid offset received; the rounding error of the total stays within 3 device units plus 2 for every change of offset, however many batches there are. An offset never changes the correction already accumulated, applies to every event read after it was received, and chronologically ordered input stays chronologically ordered.",
 ["schedules", "histories"], "All interleavings of event batches and offset updates, all update values in range.",
 "No test opens a correction stream; test_freqcd_update.py holds only a manual recipe in a comment.",
 [FC], [m("tsref/tsoverflowcorr updated per batch; fcorr replaced between batches", FC)], ["output timestamps against the history of read() calls"])
prop("C04", "freqcd: correction stream decoded correctly under any fragmentation",
 "Each newline-terminated decimal integer of magnitude below 2^21 on the correction stream takes effect exactly once and in order, however the stream is fragmented into reads, including in the middle of a number. Lines that are malformed, out of range (of any magnitude), overlong, empty or never terminated leave the offset as it was and do not affect the lines after them. The end of the correction stream leaves the last offset in force.",
 ["schedules", "inputs", "fault_sequences"], "All byte streams without NUL bytes and all fragmentations of them.",
 "No test opens a correction stream.",
 [FC], [m("freqbuffer partial value buffering, readint()", FC)], ["offset implied by the output timestamps of the batches that follow"],
 [dict(name="freqbuffer/freqbytespartial", meaning="unterminated line", where=FC)])
prop("C05", "freqcd: correction stays exact across counter rollover and long runs",
 "The 54-bit device timestamp wraps every ~19.5 hours; freqcd keeps correcting modulo 2^54 as if the counter had not wrapped, for an unlimited number of rollovers of the input, of the corrected output, or both. A gap of up to one full counter period between consecutive batches, or within one batch, is corrected in full.",
 ["histories", "inputs", "schedules"], "All multi-day histories of sorted (modulo 2^54) timestamps, any number of wraps, any position of the wrap relative to the batch boundaries.",
 "test_freqcd_overflow.py contains only a comment; no test runs past 2^31 units (8 ms).",
 [FC], [m("tsref advanced every batch, tsoverflowcorr, truncation to 54 bits", FC)], ["output timestamps modulo 2^54"])
prop("C06", "freqcd: I/O failures never corrupt, skip or silently drop events",
 "If a read, write or wait fails, or a write is short, the output produced is a correct prefix of the output of the failure-free run (possibly cut inside one event), or the complete output if freqcd recovers: no event is skipped, duplicated or altered, and nothing follows a torn event except its own remainder. If freqcd stops early it says so on stderr. A failure on the input, the correction stream or the wait does not lose complete events that had already been received.",
 ["fault_sequences", "schedules"], "All placements of EIO/EINTR/EAGAIN/ENOSPC/EPIPE/ENOMEM and short writes at any system call of any run.",
 "No test injects a failing system call.",
 [FC], [m("graceful-close branches", FC + " select/read/write error handling")], ["bytes accepted by the output descriptor", "stderr"])
prop("C07", "freqcd: prompt delivery and guaranteed termination",
 "Whenever freqcd waits for more data, every complete event received so far has already been written out. It consumes available input regardless of the state of the correction stream (no writer yet, idle, bursting, closed), and within a bounded number of steps of the end of the input it has delivered everything and exited; it never spins without consuming anything while nothing is available.",
 ["schedules", "histories"], "All arrival schedules of both streams, all consumer stalls, all points at which the correction stream closes.",
 "The tests run one short finite stream to EOF and never observe waiting.",
 [FC], [m("select() with timeout, write at the end of each iteration, freqhandle cleared at EOF", FC)], ["sequence of select/read/write calls in simulated time"])
prop("C08", "freqcd: refuses to start on bad offsets or missing resources",
 "If the offset given with -f is not a decimal integer or lies outside the documented range (|f| < 2^21 after conversion, whatever its magnitude), if any named stream cannot be opened, or if memory cannot be allocated, freqcd exits with a non-zero status and a message on stderr, having written no event. Otherwise it works on exactly the named files, whatever their names, and starts with exactly the requested offset (with -d, the nearest representable one to within one unit).",
 ["configurations", "fault_sequences", "inputs"], "All option orders and spellings, all integer offsets, all single failures of open or memory allocation.",
 "The single test uses one in-range value and no failing resource.",
 [FC, "src/fpfind/lib/getopt.c"], [m("option parsing and range check", FC + " parse options"), m("error returns", FC + " emsg")], ["exit status, stderr, bytes written"])
prop("C09", "freqcd: no memory error or undefined behaviour on any stream",
 "For every command line, input stream, correction stream, delivery schedule and single system-call failure, freqcd performs no out-of-bounds or use-after-free access, no signed overflow or other undefined arithmetic, and its output never depends on uninitialised memory.",
 ["inputs", "schedules", "fault_sequences", "configurations"], "All streams, schedules, option strings (including overlong file names) and single failures.",
 "The build runs without sanitizers and the tests use one benign stream.",
 [FC, "src/fpfind/lib/getopt.c"], [m("buffer index arithmetic", FC)], ["sanitizer reports; difference between runs with different initial memory contents"])
prop("E01", "Damaged epoch files are rejected, never invented from, never hang",
 "Reading a T1, T2, T3 or T4 epoch file that is complete yields exactly the events stored in it. If the file was cut anywhere (writer crashed, disk full, or still being written while it is read), the reader finishes and either raises an error or returns only events that were fully stored, never an event that was not written; for T2 and T4, whose end is marked in the stream, a missing end mark is always an error, and so are fewer events than the header announces.",
 ["crash_points", "schedules", "inputs", "fault_sequences"], "All files, all truncation points (byte granularity), all instants at which a concurrent writer can be overtaken, all read errors.",
 "The tests that read epoch files need data that is not in the repository; none reads a damaged file.",
 [PE], [m("terminator and length checks", PE + " read_T1/read_T2/read_T3/read_T4"), m("bit extraction", PE + " extract_bits")], ["returned arrays or raised exception, number of file reads"])
prop("E02", "Epoch write/read cycle is lossless and crash-safe",
 "Timestamps and detector patterns written to a T1 epoch are read back identically, in order, at every documented resolution/format combination that can represent them. The file is named after the epoch and its header states the T1 type, the epoch and the number of events. Timestamps and patterns of different number are refused. If writing is interrupted at any point (crash, disk full, I/O error), the error is not swallowed, and reading what is left either raises or returns a prefix of what was being written.",
 ["crash_points", "fault_sequences", "inputs"], "All event lists, all epochs, all crash points and failing writes, all partial flushes.",
 "test_limits writes one fixed epoch with a fault-free disk.",
 [PE], [m("write_T1 header with count, terminator", PE + " write_T1"), m("length check", PE + " read_T1")], ["read_T1 output after a simulated crash"])
prop("E03", "Overlap search finds the first common epoch under directory churn",
 "The epoch reported for two directories is the smallest epoch present in both that is not before the requested first epoch, with the number of consecutive epochs following it that are present in both; if there is none it reports none. The answer does not depend on the order in which the directories are listed, and when epochs arrive or are removed while the directories are scanned it is an answer that is correct for the contents as they were when each directory was listed.",
 ["schedules", "histories"], "All directory contents, listing orders and interleavings of arriving/removed epochs with the scan.",
 "No test calls the search.",
 [UT], [m("set intersection, contiguous count", UT + " get_first_overlapping_epoch")], ["returned epoch and count"])
prop("E04", "Epoch windows assemble into one gapless, ordered time line",
 "Loading consecutive epochs yields all events of exactly the requested epochs, once each, in chronological order on a common time line in ns, also when the window crosses the 17-bit epoch rollover (every ~19.5 hours), and identically referenced for both parties. A missing or damaged epoch inside the window, or one that disappears while loading, is reported as an error instead of being skipped.",
 ["histories", "fault_sequences", "inputs"], "All first epochs, skips and window lengths, both epoch types, any epoch missing, damaged or vanishing during the load.",
 "The tests covering this need missing data and import a module that does not exist.",
 [UT, PE], [m("get_timestamp loop over epochs", UT), m("17-bit epoch LSB in event timestamps", PE + " read_T1/read_T2")], ["array returned by the loader"])
prop("E05", "Epoch headers: exact fields, misfiled or inconsistent files are flagged",
 "Reading the header of a T1, T2, T3 or T4 epoch file returns every field exactly as stored, over the full range of its 32-bit type. A file that ends inside its header, or cannot be read, raises an error. Exactly when the type tag is not the one of the format, when the epoch in the header is not the (8-digit) one the file is named after, or, for T3, when the entry size is not 8 bits or the number of entries differs from the announced one, a warning is logged for each such inconsistency; the data is still returned. However the file is named by the caller (absolute, relative, with dots, string or path object) the result is the same.",
 ["inputs", "fault_sequences"], "All header field values, file names, cut points and read errors.",
 "No test reads a header on its own, and none reads a misfiled or cut one.",
 [PE], [m("read_T1_header .. read_T4_header", PE), m("length_entry and bits_per_entry checks", PE + " read_T3")], ["returned header, exceptions, records logged at warning level or above"])
prop("S01", "Block streaming equals whole-file reading for every format",
 "For each event file format (a0, a1, a2), concatenating the blocks produced by the streaming reader gives exactly the events of the file, the same as the whole-file reader and as what was written, for every block size, resolution and output type, over the full 54-bit timestamp range. Several streams consumed alternately or abandoned part-way do not influence each other, and short reads from the storage layer do not change the result.",
 ["schedules", "inputs", "configurations"], "All files, block sizes, interleavings of several readers, short-read patterns.",
 "The format tests need missing data; no test uses a streaming reader.",
 [PT], [m("sread_a0/a1/a2 block loop", PT), m("read_a0/a1/a2", PT)], ["concatenated (t, p) blocks"])
prop("S02", "parse_timestamps converts and filters losslessly",
 "Converting an event file between any two of the formats (with or without legacy word order) preserves every event's timestamp and 4-bit detector pattern in order, in streaming and in in-memory mode alike. With pattern or time filters exactly the events selected by the documented filter rules are kept, independently of how the file is divided into blocks. The input file is never modified.",
 ["configurations", "inputs", "schedules"], "All format pairs, legacy flags, filter settings, file contents and block divisions.",
 "No test runs the converter.",
 [PT], [m("main(), inline_filter, swrite_*", PT)], ["output file bytes"])
prop("S03", "Conversion under storage faults: error and correct prefix",
 "If the input of a conversion (binary or text) is cut inside an event, a read fails, a write fails, the disk fills up, or the process dies, the run ends with an error (never a success status), the input is untouched, and the output file is a prefix of the correct output, never containing wrong or reordered events. Partial reads and writes change nothing. If a non-empty input grows by whole events while it is converted, the run succeeds; whenever a run on a growing or shrinking input succeeds, the output is the conversion of the file as it was at one moment. Command lines that cannot be carried out (missing or unreadable input, no output, unknown format) are refused without touching any file.",
 ["fault_sequences", "crash_points"], "All fault kinds at all system-call positions, all truncation points of event files in all formats, all moments at which the input changes.",
 "No test injects a storage fault.",
 [PT], [m("exceptions propagate out of swrite_*/sread_*", PT)], ["exit status and output file bytes"])
prop("S04", "Statistics report equals the true counts for every file",
 "The statistics report of an event file states the exact number of events, per-channel, multi-channel and no-channel counts, the set of detection patterns and the first and last timestamps of the (filtered) file, for every division into blocks, in streaming and in-memory mode alike, and is produced for every non-empty selection, including a single event.",
 ["configurations", "inputs", "schedules"], "All files, block sizes and filters, including blocks from which everything is filtered out.",
 "No test prints statistics.",
 [PT], [m("print_statistics_stream accumulation", PT)], ["printed report"])
prop("F01", "fpfind recovers clock skew and offset of a simulated link",
 "Given two detector streams of a common source with enough coincidences above the significance threshold, fpfind reports the relative frequency offset and the time offset at the common start within the final timing resolution (frequency: a few final-resolution bins over the separation; time: a few final-resolution bins). This holds for skews and offsets of either sign, photon loss, loss bursts, dark counts, timing jitter and detector dead time, also when skew or jitter spread the signal so that it exceeds the threshold only after bins have been merged or when the device counters start over during the recording, and for both raw-timestamp and epoch-directory input.",
 ["inputs", "fault_sequences", "configurations"], "All link realisations within the stated signal margin; skew up to +-20 ppm, offset up to +-1 ms, the FFT orders and resolutions listed in DESIGN.md.",
 "The fpfind tests import a module that does not exist and need recorded data; a fixed recording cannot quantify over skews, offsets, losses and noise.",
 [FP, UT], [m("time_freq refinement loop", FP), m("normalize_timestamps, slice_timestamps, xcorr", UT)], ["stdout of fpfind vs the simulated clocks"])
prop("F02", "fpfind output modes agree and swapping the parties inverts the result",
 "For one and the same pair of recordings all output modes (-V) describe the same result: mode bits only invert it, change units to 2^-34 or 1/8 ns, or omit the time. Exchanging reference and target yields (1+f_ab)(1+f_ba) = 1 and t_ba(1+f_ab) + t_ab = 0 within the resolution.",
 ["inputs", "configurations"], "All link realisations within the signal margin, all 16 output modes.",
 "The invariance tests cannot be collected and cover two recordings.",
 [FP], [m("output formatting with flag bits", FP + " main")], ["stdout of fpfind"])
prop("F03", "fpfind never reports an offset it could not establish",
 "When the streams carry no usable common signal, are too short, empty, out of the searchable offset range, or a needed epoch file is missing or damaged, fpfind terminates with a failure status and prints no result on stdout. If a result is printed, the run succeeded.",
 ["inputs", "fault_sequences"], "Uncorrelated or too short streams, missing/damaged/vanishing epochs, failing reads.",
 "No runnable test calls fpfind at all.",
 [FP, UT], [m("PeakFindingFailed and guard rails", FP + " time_freq")], ["exit status and stdout"])
prop("F04", "fpfind precompensation scan finds skews beyond single-pass range",
 "With precompensation enabled, a skew too large to be found directly is found when it lies near a scanned value, and the reported result is the total skew and offset, independent of which scanned value found it and of the scan order. The scan extends to every value within its range, the limit included. A full scan tests every value and reports the same result as the scan that stops at the first success.",
 ["inputs", "configurations"], "All skews within the scan range of the simulated scans, ordered and alternating scans, with and without full scan.",
 "No runnable test calls fpfind.",
 [FP], [m("fpfind() loop over precompensations", FP), m("generate_precompensations", FP)], ["stdout of fpfind"])
prop("F05", "fpfind results depend on the data only",
 "For the same recordings fpfind prints the same result regardless of wall-clock time and clock jumps while it runs, verbosity, logging to a file (even one that cannot be written any more), legacy versus normal word order of the files, whether its settings come from the command line, a given or default configuration file or one written by --save, and repetition in the same process.",
 ["schedules", "fault_sequences", "configurations"], "All wall-clock behaviours (steps, backward jumps, stalls), all verbosity levels, log-file faults, repeated runs.",
 "No runnable test calls fpfind; none controls the clock.",
 [FP, "src/fpfind/lib/logging.py"], [m("@profile timing and logging", FP), m("set_logfile", "src/fpfind/lib/logging.py")], ["stdout of fpfind"])
prop("F06", "Closed loop: fpfind output fed to freqcd restores synchronisation",
 "Feeding the frequency printed by fpfind in units of 2^-34 to freqcd (inverted mode for the target's stream, plain mode for the reference's stream) yields a stream whose remaining skew against the other party is below the resolution of the estimate, however freqcd's input is fragmented, and fpfind run on the corrected streams finds no remaining skew beyond that resolution.",
 ["inputs", "schedules"], "All link realisations within the signal margin, all fragmentations of the stream through freqcd.",
 "No test connects the two programs.",
 [FP, FC], [m("-V units and inversion", FP + " main"), m("correction", FC)], ["corrected timestamps vs the simulated clocks"])
prop("T01", "Wall clock to epoch mapping is correct at every instant",
 "The epoch reported for an instant is the one containing that instant (epochs last 2^32 * 125 ps = 0.537 s), for the current time as well as for a given one, so it never decreases while the clock advances; converting an epoch to a date gives the start of that epoch to within a microsecond, and converting back gives an epoch at most one away.",
 ["schedules", "inputs"], "All clock readings and clock step patterns between 1971 and 2040.",
 "No test calls the conversions.",
 [PE], [m("date2epoch/epoch2date", PE)], ["returned epoch string"])
prop("T02", "Test-case generator is faithful and never damages its input",
 "generate_freqcd_testcase emits exactly the requested timestamps as events (in legacy word order with -x), and prints exactly the timestamps of the events it is given, from a file or from stdin, over the full 54-bit range. It never modifies an event file it was asked to read, and leaves no temporary file behind, also when it is interrupted or a read or write fails. Invocations running at the same time in one directory do not disturb each other.",
 ["inputs", "fault_sequences", "crash_points"], "All timestamp lists, all delivery fragmentations of stdin, interrupts and I/O faults at any call.",
 "The only test using it fails in this repository and uses three small timestamps.",
 [GT], [m("main(): temp file handling, LEGACY flag", GT)], ["stdout, files in the working directory"])
prop("T03", "First-run launcher installs the real program atomically and runs it",
 "The first invocation of the freqcd launcher compiles the program, replaces itself with it and runs it with the arguments, standard streams and working directory of the caller. If the compilation fails, crashes or is killed at any point, the launcher reports a failure and a later invocation (with a working compiler) succeeds; concurrent first invocations do not break each other. At every moment the program file is either the launcher or the complete program.",
 ["crash_points", "fault_sequences", "schedules"], "All failure points of the compile step, any number of concurrent first invocations, any caller working directory, any installation path.",
 "The launcher is only syntax-checked by the build.",
 ["src/fpfind/freqcd", "src/fpfind/_postinstall"], [m("stub script and _postinstall", "src/fpfind/freqcd")], ["exit status, program file, observed argv and cwd"])
prop("T04", "Detuned test files follow the detuning law; source untouched",
 "generate_freqdetuneg2 turns a recorded two-channel event file into c1_a2.dat, holding exactly its events with pattern 1, and c4e10.dat to c4e3.dat, each holding exactly its events with pattern 8, in order, at t0 + (t - t0)(1 + 10^-k) with t0 the first event of the recording, to within 3 device units plus the precision of a double. The recording is never modified. If reading or writing fails, the disk fills up or the process dies, the run does not report success, and what was written is a prefix of the correct files.",
 ["inputs", "fault_sequences", "crash_points"], "All recordings with at least one event, all fault positions.",
 "No test runs the script.",
 ["src/fpfind/lib/generate_freqdetuneg2.py", PT], [m("detune()", "src/fpfind/lib/generate_freqdetuneg2.py"), m("write_a1, write_a2 with legacy", PT)], ["files written next to the recording, exit status"])
prop("L01", "Diagnostics: every message once in each sink, whatever fails",
 "Every message a logger issues at or above its selected level (by label, or warnings, info with -v, debug with -vv and more) appears exactly once on stderr and exactly once in every log file attached by then (-L; replacing an older file), in the order issued, with its time, level, place (overridable), text and details: after a tab, or, if human-readable, one per line aligned below the message. "
 "Nothing else appears there and nothing on stdout. A message is in the file when the call returns, so that a process which dies leaves everything logged before. A sink that fails affects neither the program nor the other sink. Requesting a logger again only changes its level. "
 "A profiled function returns or raises as if it were not profiled, brackets what is logged inside between its start and its end, and the nesting is restored when it fails.",
 ["inputs", "fault_sequences", "crash_points", "configurations"], "All sequences of messages, levels, loggers and log files, all clock readings, all fault and crash positions.",
 "No test looks at the log.",
 ["src/fpfind/lib/logging.py", FP], [m("get_logger, set_logfile, LoggingOverrideFormatter, verbosity2level", "src/fpfind/lib/logging.py"), m("profile", FP)], ["stderr", "log file", "stdout"])
prop("N01", "Peak statistics and rounding helpers compute their definitions",
 "Significance, background, g2, window selection, delay lookup and the significant-figure rounding helper return the values given by their definitions for every histogram.",
 ["inputs"], "All histograms and parameters.", "No test calls them.",
 [UT], [m("PeakStatistics, get_statistics, round", UT)], ["return values"])
prop("F07", "fpplot: what fpfind reports is what lines the streams up",
 "fpplot histograms exactly the reference events against the target events corrected by (t - time)/(1 + freq), both counted from their common start, after -Z, with --duration, -n, -z, -e, -X and --width meaning what they say. "
 "So for a pair of recordings of one link, plotting with the skew and offset that fpfind reports (or that the link has) puts the coincidences at zero delay. The histogram drawn is the one computed. A recording that cannot be read "
 "completely, or a plot that cannot be written, is an error; nothing is plotted from part of the data.",
 ["inputs", "configurations", "fault_sequences"], "All links, recordings (raw and epoch directories), option combinations, transfer sizes and failing reads or writes.",
 "No test imports fpplot; its plotting dependencies are not even installed.",
 ["src/fpfind/fpplot.py", UT], [m("plotter, main", "src/fpfind/fpplot.py"), m("normalize_timestamps, slice_timestamps, get_timestamp", UT)], ["arrays handed to the histogram routine", "plotted line", "exit status"])
prop("N04", "g2 histogram counts every pair of timestamps within the window",
 "The pairwise histogram of two sorted time stamp arrays counts every pair inside the analysed interval whose delay is below the maximum exactly once, in the bin of its delay modulo the histogram length.",
 ["inputs"], "All pairs of sorted arrays, bin widths and window lengths.", "No test calls it.",
 ["src/fpfind/lib/g2_two_timestamps.py"], [m("g2", "src/fpfind/lib/g2_two_timestamps.py")], ["return value"])
prop("N03", "Help text and description formatting",
 "The command-line help lists every option with its short and long form and renders raw-text help verbatim.",
 ["configurations"], "All option definitions.", "No test prints help.",
 [UT, FP], [m("ArgparseCustomFormatter, parse_docstring_description", UT)], ["stderr"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
