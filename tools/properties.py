#!/usr/bin/env python3
"""The property table: writes ../properties.jsonl and ../MANIFEST.json."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, state=(),
         observe=()):
    a = dict(files=files, mechanism=[dict(name=n, where=w)
                                     for n, w in mechanism])
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        a["observe_at"] = list(observe)
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why, anchors=a))


prop("C01", "Each trace line becomes exactly one faithfully attributed event",
     "Parsing a trace-cmd style text report gives, for every line of a "
     "requested event, exactly one row in that event's table, in file order, "
     "carrying the task name as printed (leading blanks aside, and whatever "
     "dashes, blanks, digits or brackets it contains), process id, CPU number "
     "and position of that line in the trace. Optional columns (thread group "
     "in parentheses, four-character flags) change nothing else, and lines "
     "that are not events or belong to events not asked for add no rows.",
     ["inputs"],
     "every task name, pid, cpu, optional column, and mix of event, header "
     "and noise lines",
     "The tests parse a handful of fixed traces; the task-name, optional "
     "column and noise-line space is unbounded and the greedy line pattern "
     "has many ways to split a line.",
     ["trappy/ftrace.py", "trappy/base.py"],
     [("line pattern", "ftrace.py:SPECIAL_FIELDS_RE"),
      ("line dispatch loop", "ftrace.py:GenericFTrace.__populate_data"),
      ("row construction", "base.py:Base.generate_parsed_data")],
     observe=["FTrace(...).<event>.data_frame"])

prop("C02", "Event times are seconds for both trace clock formats",
     "The time of an event is the number printed on its line in seconds: a "
     "stamp with a fractional part is read as is, a stamp without one is "
     "nanoseconds and is divided by a thousand million. This holds for every "
     "digit string, line by line, for lines of unrequested events (which "
     "still determine the start and end of the trace) and with times kept "
     "absolute or made relative.",
     ["inputs"], "every digit string for the stamp and every mix of formats",
     "Tests use one trace per format; a unit slip for certain digit counts or "
     "a mixed trace is not sampled.",
     ["trappy/ftrace.py"],
     [("timestamp group and ns conversion",
       "ftrace.py:GenericFTrace.__populate_data")],
     observe=["data_frame.index", "basetime", "endtime"])

prop("C03", "Event times are unique, ordered and as close as possible",
     "Across all events of one parsed trace, times are strictly increasing in "
     "file order, so that no two events share a time and joining the tables "
     "back by time restores the file order. An event whose stamp is later "
     "than everything before it keeps its stamp exactly; otherwise it gets a "
     "time after the previous event by no more than a negligible step.",
     ["inputs", "histories"],
     "every sequence of stamps: equal, decreasing, interleaved over events, "
     "zero, with requested and unrequested events in between",
     "The tests contain a few duplicate stamps in one fixed order; the "
     "property quantifies over all stamp sequences and event assignments.",
     ["trappy/ftrace.py", "trappy/utils.py"],
     [("strictly increasing timestamp", "ftrace.py:__populate_data"),
      ("duplicate index spreading", "utils.py:handle_duplicate_index")],
     observe=["data_frame.index over all events"])

prop("C04", "key=value fields are decoded faithfully",
     "For every event payload made of key=value fields, the row holds each "
     "key with its value: integers in any C notation (decimal, 0x, 0o, 0b, "
     "signed) as numbers, everything else as the text, split at the first "
     "equals sign only, later fields overriding earlier ones, and words "
     "without an equals sign appended with one blank to the preceding text "
     "value. A payload that starts with such a word is rejected with a parse "
     "error naming the line, unless the tracing tool itself marked the line "
     "as unparsable, which warns and keeps the rest.",
     ["inputs"], "every payload string within the length bound",
     "Tests use about ten literal payloads; splitting, base detection and "
     "continuation interact over all strings.",
     ["trappy/base.py"],
     [("field splitting", "base.py:Base.generate_data_dict"),
      ("base-0 integers", "base.py:Base.string_cast_int")],
     observe=["data_frame columns"])

prop("C05", "Array fields become one column per element, padded with zero",
     "A field name={v0 v1 ...} becomes fields name0=v0, name1=v1, ... in "
     "order, and every line that has the array gets as many of them as the "
     "longest such array of that event in the trace, missing elements being "
     "0. Lines where the array is empty or absent have no value in those "
     "columns, and neither an empty array nor its position disturbs other "
     "fields or other rows; several arrays in one line are independent.",
     ["inputs"],
     "every arrangement of array lengths over rows, arrays per row, position "
     "of arrays among plain fields, element values",
     "Tests cover one array, two lengths and one empty array in one "
     "position.",
     ["trappy/base.py", "trappy/ftrace.py"],
     [("array length scan", "base.py:__get_trace_array_lengths"),
      ("explosion", "base.py:trace_parser_explode_array"),
      ("empty array removal", "ftrace.py:__populate_data")],
     observe=["data_frame columns"])

prop("C06", "Every line goes to the one right event, fallback last",
     "A line is recorded by the single requested event whose marker occurs in "
     "it, whatever the order of registration or request; the free-form "
     "userspace-marker event only receives lines that no more specific "
     "requested event claims, and then keeps their text untouched (apart from "
     "'word: ' tags of the line header). Requesting more events never changes "
     "what another event records.",
     ["inputs", "configurations"],
     "every set and order of requested events and every interleaving of "
     "their lines",
     "Tests check one fallback trace with one order of events.",
     ["trappy/ftrace.py", "trappy/fallback.py", "trappy/dynamic.py"],
     [("class lookup", "ftrace.py:__get_trace_class"),
      ("marker table", "ftrace.py:__parse_trace_file"),
      ("fallback decoding", "fallback.py:FallbackEvent.generate_data_dict")],
     observe=["data_frame of each event"])

prop("C07", "Time windows keep exactly the events inside, ends included",
     "With a relative and/or an absolute time window, every event table holds "
     "exactly the events of the whole trace whose time lies in every given "
     "window, both ends included, an end of None meaning unbounded; when both "
     "windows are given this is their intersection. Windows select rows and "
     "change nothing else, whatever the cache state.",
     ["inputs", "configurations"],
     "all event times, all window bounds (0, negative, empty, beyond the "
     "trace, None), both clocks, both windows together",
     "Tests try a dozen fixed windows on one trace, never two windows "
     "together nor an end of zero.",
     ["trappy/ftrace.py"],
     [("window intersection", "ftrace.py:_calc_max_window"),
      ("row slicing", "ftrace.py:_windowify_class")],
     observe=["data_frame of each event"])

prop("C08", "Normalised time is a pure shift by the first event",
     "With normalisation on, every table's times are the trace times minus "
     "the time of the first event line of the trace (requested or not, inside "
     "the window or not), the same amount for every event; with it off they "
     "are the trace times; all other columns are identical in both. The "
     "reported start, end and duration describe the first and last event "
     "line of the trace and the span of the rows held, and a later explicit "
     "re-normalisation shifts every event alike.",
     ["inputs", "configurations"],
     "all times, event assignments, windows, zero start, empty events",
     "Tests assert a few constants on fixed traces.",
     ["trappy/ftrace.py", "trappy/base.py", "trappy/bare_trace.py"],
     [("basetime", "ftrace.py:__populate_data"),
      ("shift", "base.py:Base.normalize_time"),
      ("duration", "bare_trace.py:get_duration")],
     observe=["data_frame.index", "basetime", "endtime", "get_duration()"])

prop("C09", "Loading from the cache gives the same trace as parsing",
     "Opening a trace whose cache is valid yields the same tables (values, "
     "value types, columns, times, order), start, end, duration and metadata "
     "as parsing it afresh, whatever subset of events, windows and "
     "normalisation the earlier and the later load used, and the trace file "
     "is left unchanged. Events missing from the cache are parsed and added.",
     ["inputs", "histories", "configurations"],
     "all field values (numeric-looking text included), all sequences of two "
     "or three loads with different event sets and options",
     "Tests compare a cached and a fresh load of one trace and look at a few "
     "cells; text-to-number guessing when reading the cache back depends on "
     "values they do not contain.",
     ["trappy/ftrace.py", "trappy/base.py"],
     [("cache write", "ftrace.py:_update_cache, base.py:write_csv"),
      ("cache read", "ftrace.py:_load_cache, base.py:read_csv")],
     state=[("cache directory", "CSV per event and metadata.json",
             "ftrace.py:_trace_cache_path")],
     observe=["two FTrace objects over one file"])

prop("C10", "Stale, damaged or half-written caches are never believed",
     "If the trace file's content differs from what was cached, or the cache "
     "is incomplete or damaged (metadata missing, unreadable or lacking "
     "entries, tables missing or unreadable, a write interrupted at any "
     "point), opening the trace still succeeds and yields exactly what a "
     "fresh parse yields, and leaves a cache that is valid again. A cache "
     "that cannot be written only causes a warning, and nothing outside the "
     "trace's own cache folder is removed or overwritten.",
     ["histories", "fault_sequences", "crash_points"],
     "all kinds of damage, crash points of the cache write, changes to the "
     "trace file, orders of loads",
     "Tests cover a changed md5, a missing key and one missing CSV.",
     ["trappy/ftrace.py"],
     [("validity check", "ftrace.py:_is_cache_valid"),
      ("invalidation and rebuild", "ftrace.py:_load_cache, _update_cache")],
     state=[("cache directory", "CSV per event and metadata.json",
             "ftrace.py:_trace_cache_path")],
     observe=["FTrace objects", "directory contents"])

prop("C11", "Callbacks see every event once, in trace order",
     "Applying callbacks to a set of events calls, for every row of those "
     "events and no other, the callback of its event exactly once, in the "
     "order of the lines in the trace, passing the row's time and every "
     "column under its own name (names with leading underscores or odd "
     "characters included). Empty events are allowed and the tables are left "
     "as they were.",
     ["inputs", "histories"],
     "all interleavings of events over lines, equal or unordered stamps, "
     "columns, empty events",
     "Tests replay two fixed traces.",
     ["trappy/ftrace.py"],
     [("merge by line", "ftrace.py:apply_callbacks")],
     observe=["arguments of the callbacks"])

prop("C12", "Event registration is predictable and conflict-free",
     "Registering an event makes it available under its snake-case name in "
     "exactly the chosen scope for traces opened afterwards, and "
     "unregistering undoes that; a custom-scope trace holds exactly the "
     "requested events, known ones under their registered parser and name "
     "whichever way they are named. Two events where one's marker is part of "
     "the other's are refused, adding an already present event to a trace is "
     "refused without changing it, and one trace's events never leak into "
     "another or into the registry.",
     ["configurations", "histories"],
     "all class and event names, markers, scopes, sequences of register, "
     "open, add and unregister",
     "Tests register two or three fixed names.",
     ["trappy/ftrace.py", "trappy/dynamic.py", "trappy/bare_trace.py"],
     [("registry", "ftrace.py:register_parser, unregister_parser"),
      ("requested events", "ftrace.py:__add_events"),
      ("marker conflicts", "ftrace.py:GenericFTrace.__init__"),
      ("names", "dynamic.py:_get_name, register_dynamic_ftrace"),
      ("adding events", "bare_trace.py:add_parsed_event")],
     state=[("scope dictionaries", "parsers per scope",
             "ftrace.py:GenericFTrace.*_classes")],
     observe=["class_definitions", "attributes of the trace"])

prop("C13", "De-duplicating a time index keeps rows, order and bounds",
     "Given a table or series sorted by time with repeated times, the result "
     "has the same rows in the same order with strictly increasing unique "
     "times: the first of each group keeps its time, the others move later by "
     "less than the distance to the next distinct time and by no more than "
     "the allowed maximum per step. Indexes without repetition come back "
     "unchanged, and the table given is left as it was.",
     ["inputs"],
     "all sorted indexes within the length bound, all group sizes, gaps and "
     "maximum steps",
     "Tests use groups of two and one group of three.",
     ["trappy/utils.py"],
     [("spreading", "utils.py:handle_duplicate_index")],
     observe=["returned index and values"])

prop("C14", "Systrace files yield exactly the embedded trace",
     "From a systrace HTML page (either known layout) only the lines of the "
     "embedded trace count: nothing before the trace section nor after its "
     "end, whatever those parts look like. Userspace markers of the form "
     "letter|pid|name|data are decoded into event, pid, function name and "
     "data (absent parts empty), free text is kept as is, and the number of "
     "CPUs is one more than the highest CPU of the scheduler switches.",
     ["inputs"],
     "all marker payloads, positions of the section markers, lookalike lines "
     "outside the section",
     "Tests parse three fixed pages.",
     ["trappy/systrace.py", "trappy/fallback.py", "trappy/ftrace.py"],
     [("section detection", "systrace.py:drop_before_trace"),
      ("end detection", "systrace.py:trace_hasnt_finished"),
      ("marker decoding", "systrace.py:generate_data_dict")],
     observe=["SysTrace(...).<event>.data_frame", "_cpus"])

prop("C15", "Known kernel events decode to their documented columns",
     "System call entry and exit give number, six hexadecimal arguments "
     "converted to integers, and return value; clock events give the clock "
     "name and its fields, filesystem events give their fields under the "
     "documented names, scheduler switches give all fields of both tasks, CPU "
     "idle reports leaving idle as state -1, frequency and capacity events "
     "carry cpu and frequency or capacity, CPU masks are padded with zeros to "
     "eight characters, and the list of tasks matching a name is complete and free of "
     "repetitions.",
     ["inputs"], "all field values within bounds",
     "Tests have one or two literal lines per event.",
     ["trappy/raw_syscalls.py", "trappy/common_clk.py", "trappy/idle.py",
      "trappy/filesystem.py", "trappy/sched.py"],
     [("syscall pattern", "raw_syscalls.py:explode"),
      ("clock", "common_clk.py:CommonClkBase.generate_data_dict"),
      ("idle", "idle.py:CpuIdle.finalize_object"),
      ("filesystem", "filesystem.py"),
      ("sched", "sched.py")],
     observe=["data_frame of those events"])

prop("C16", "Power and frequency tables per cluster are exact",
     "For power-actor events the frequency tables show, per labelled cluster "
     "and time, the latest frequency in MHz; load is the sum of the per-CPU "
     "loads, and normalised load is that sum times the frequency divided by "
     "the cluster's highest frequency and its number of CPUs. A cluster "
     "without label is reported with the available names, cells before a "
     "cluster's first event are empty, and the number of CPUs in a mask is "
     "the number of set bits, commas ignored; the parsed events are not "
     "altered.",
     ["inputs"],
     "all masks, frequencies, loads, interleavings of clusters",
     "Tests compare a few numbers on two clusters.",
     ["trappy/cpu_power.py", "trappy/devfreq_power.py", "trappy/ftrace.py"],
     [("pivot", "cpu_power.py:pivot_with_labels"),
      ("mask", "cpu_power.py:num_cpus_in_mask"),
      ("load", "cpu_power.py:get_load_data, get_normalized_load_data"),
      ("joined tables", "ftrace.py:get_all_freqs_data")],
     observe=["returned tables"])

prop("C17", "Expressions over trace signals evaluate with usual precedence",
     "An arithmetic, comparison and logical expression over numbers, event "
     "columns, parameters and functions evaluates to what the documented "
     "grammar and the usual precedence give for every operand value: powers "
     "before signs and products before sums before comparisons before logical "
     "combinations, equal-precedence operators from left to right, "
     "parentheses first. References to columns, parameters and functions "
     "yield exactly the event's values at their times, the parameter or the "
     "function's result, and inspect() tells the rows, pivot and pivot values "
     "such a reference has within the parser's window and filters.",
     ["programs", "inputs"],
     "all operator pairs and nestings within the size bound over all operand "
     "values",
     "Tests evaluate about forty literal expressions on one trace.",
     ["trappy/stats/grammar.py"],
     [("operator grammar", "grammar.py:Parser.__init__"),
      ("evaluation", "grammar.py:eval_*_op"),
      ("columns", "grammar.py:_pre_process, _get_data_frame")],
     observe=["Parser.solve()"])

prop("C18", "Joining events in expressions is exact in time and per pivot",
     "When an expression uses several events, its value at each time of any "
     "event used so far by this parser combines each event's latest value up "
     "to that time (for events with a pivot, the latest of that pivot value) "
     "and is empty before an event's first value. Windows keep exactly the "
     "times inside, filters keep exactly the rows with the given values, and "
     "neither the trace nor later evaluations are affected.",
     ["inputs", "histories"],
     "all interleavings, pivots, windows, filters, sequences of expressions "
     "on one parser",
     "Tests compare a few cells on a small fixed trace.",
     ["trappy/stats/grammar.py"],
     [("alignment", "grammar.py:Parser._agg_df, _pre_process"),
      ("pivot reference", "grammar.py:inspect, ref"),
      ("windows and filters", "grammar.py:Parser.__init__")],
     observe=["Parser.solve()", "Parser.ref()"])

prop("C19", "Triggers and aggregation count each event exactly once",
     "A trigger yields, for a pivot value, exactly the matching events of the "
     "trace at their times carrying the configured constant or column value. "
     "Aggregation over a level of the topology adds, element by element, the "
     "results of exactly the nodes of each group, every group in order, no "
     "node counted twice or dropped, and repeating it gives the same answer.",
     ["inputs", "configurations", "histories"],
     "all event sequences, filters, topologies, levels, repeated calls",
     "Tests use one topology and a few events.",
     ["trappy/stats/Trigger.py", "trappy/stats/Aggregator.py",
      "trappy/stats/Topology.py"],
     [("trigger", "Trigger.py:generate"),
      ("aggregation", "Aggregator.py:MultiTriggerAggregator"),
      ("levels", "Topology.py:Topology")],
     observe=["generate()", "aggregate()", "Topology methods"])

prop("C20", "Series are put on a common time base without inventing data",
     "The unified index of several traces is the sorted union of their times "
     "and an empty series on it is zero everywhere; a uniform index goes from "
     "the start in the given steps to before the end, and aggregated events "
     "stay at the sample of their time. Aligning moves one of two series by "
     "whole samples so that their first (or last) non-zero samples coincide, "
     "and correlating compares exactly the shared samples at the better of "
     "the alignments, so identical series and shifted copies correlate "
     "perfectly.",
     ["inputs"], "all short series, shifts and lookup times",
     "Tests check two literal series.",
     ["trappy/stats/Indexer.py", "trappy/stats/Correlator.py"],
     [("unification", "Indexer.py:get_unified_indexer, MultiTriggerIndexer"),
      ("alignment", "Correlator.py:align, shift_series"),
      ("correlation", "Correlator.py:Correlator")],
     observe=["Indexer.series()", "align", "Correlator.correlate()"])

prop("C21", "A plotted signal is exactly the filtered, pivoted column",
     "The data behind one plotted line are, in order, the values at their "
     "times of the chosen column for exactly the rows of the event that have "
     "the pivot value and satisfy every filter (a list of accepted values) "
     "and, given a window, lie in it or are the last at or before its start "
     "or the first at or after its end. The pivot values offered are exactly "
     "those that occur in such rows.",
     ["inputs", "configurations"],
     "all tables within bounds, filters, pivots, windows, signal templates",
     "Tests look at one or two fixed frames.",
     ["trappy/plotter/Constraint.py", "trappy/plotter/AbstractDataPlotter.py"],
     [("row selection", "Constraint.py:Constraint._apply"),
      ("pivot values", "Constraint.py:Constraint._get_pivot_vals")],
     observe=["Constraint.result"])

prop("C22", "Plot requests expand to the right set of lines",
     "Traces, columns, events and pivots given as single values or lists "
     "expand to exactly the documented lines: traces, columns and events are "
     "paired position by position, single values being repeated, when "
     "permuting every trace is combined with each pair of column and event, "
     "and incompatible lengths are refused. Pivot values are the sorted union "
     "over all lines, each line contributing to exactly its own pivots, and "
     "labels tell lines apart.",
     ["configurations"],
     "all list lengths and flags within bounds, all pivot value sets",
     "Tests use three or four shapes.",
     ["trappy/plotter/Constraint.py"],
     [("expansion", "Constraint.py:ConstraintManager._expand"),
      ("constraints", "Constraint.py:ConstraintManager.constraint_labels, "
       "generate_pivots")],
     observe=["ConstraintManager iteration"])

prop("C23", "Plot layouts give every plot its own cell",
     "For any number of plots and any requested number per row, the grid has "
     "room for all, each plot maps to exactly one cell and no two share one, "
     "cells fill row by row, and the unused cells are exactly the remaining "
     "ones.",
     ["configurations"], "all counts and row lengths within bounds",
     "Tests check a few sizes.",
     ["trappy/plotter/PlotLayout.py"],
     [("grid", "PlotLayout.py:PlotLayout")],
     observe=["get_axis", "get_2d", "finish"])

prop("C24", "Task residency intervals reproduce the context switches",
     "From the context-switch events of a trace, the residency data list for "
     "each selected task exactly the intervals from switching in to switching "
     "out (or the end of the trace) on that CPU, on the right lane, with "
     "names telling tasks apart; no interval is lost, invented or overlapping "
     "on one CPU. A task that is switched in twice because of dropped events "
     "loses only the interval of unknown end.",
     ["inputs", "histories"],
     "all switch sequences over CPUs, tasks and times within bounds",
     "One test on a fixed trace.",
     ["trappy/plotter/Utils.py", "trappy/plotter/EventPlot.py"],
     [("intervals", "plotter/Utils.py:get_trace_event_data")],
     observe=["get_trace_event_data(...)"])

prop("C25", "Event plots carry every interval of every lane",
     "The data handed to the browser for an event plot hold every interval of "
     "every process with its start, end and lane, in the order given, the "
     "lanes in the requested order and the given time span and colours. The "
     "processes shown are those that ever run, the ones with the longest "
     "average intervals first; lanes that were not requested are rejected, "
     "and the data given are left as they were.",
     ["inputs", "configurations"],
     "all small interval sets, lane configurations and time spans",
     "One test checks that nothing crashes.",
     ["trappy/plotter/EventPlot.py"],
     [("data file", "EventPlot.py:EventPlot")],
     observe=["emitted JSON"])

prop("C26", "Exported notebooks keep scripts intact and self-contained",
     "Rewriting the displayed output of an exported notebook replaces every "
     "marked reference to a TRAPpy script by the script itself and every "
     "marked library by a reference to its published address, the first time "
     "it occurs in that notebook, and drops it later on. Marked lines and "
     "sections are removed, and all other lines, outputs and cells are left "
     "exactly as they were.",
     ["inputs"], "all surrounding text within bounds",
     "One or two literal cells.",
     ["trappy/nbexport/exporter.py"],
     [("rewriting", "exporter.py:HTML exporter")],
     observe=["exporter output"])

prop("C27", "Workload-automation results are grouped without loss",
     "Every score row of a results file lands in exactly one cell of the "
     "table, by workload, run (or the given name) and iteration number, with "
     "its value; the first of repeated rows counts and other metrics are left "
     "out. Combining tables keeps every workload, run and value of each, "
     "apart under their names and in the order given, also if they have "
     "different workloads or iterations.",
     ["inputs"], "all small result tables",
     "Two fixed CSV files.",
     ["trappy/wa/results.py"],
     [("grouping", "wa/results.py:get_results, combine_results")],
     observe=["Result tables"])

prop("C28", "Thermal parameters are read as written",
     "Reading the sysfs parameters of a run returns, for every documented "
     "parameter file present (governor settings, weights of cooling devices "
     "and temperatures of trip points) and no other, its name and its number "
     "or text, whether or not the file ends with a newline. Missing files and "
     "folders are skipped, and showing the parameters lists exactly these.",
     ["inputs", "configurations"],
     "all values and subsets of present files",
     "One fixed folder.",
     ["trappy/wa/sysfs_extractor.py"],
     [("reading", "wa/sysfs_extractor.py:SysfsExtractor")],
     observe=["get_parameters()", "pretty_print_in_ipython()"])

prop("C29", "Signal definitions and colours are parsed faithfully",
     "A signal event:column[:r,g,b], with colour values from 0 to 255 in "
     "decimal or as 0x hexadecimal, makes a plot of exactly that event and "
     "column in that colour; signals without a colour next to coloured ones "
     "get a valid default colour. Malformed signals, other colour values, "
     "events that no trace has, and incomplete or contradicting plot data are "
     "refused. A list of colours gives each index exactly its colour, and the "
     "default colours of the lines of a plot differ.",
     ["inputs"], "all strings and colour values within bounds",
     "A few literal strings.",
     ["trappy/plotter/AbstractDataPlotter.py", "trappy/plotter/ColorMap.py"],
     [("parsing", "AbstractDataPlotter.py:_describe_signals"),
      ("colours", "ColorMap.py")],
     observe=["plot attributes"])

prop("C30", "Trace path resolution and header metadata are right",
     "Opening a folder, or a .dat or .txt file, reads the binary trace if "
     "there is one and otherwise the text one (folders: trace.dat, "
     "trace.txt), files with other extensions are read as text, a missing "
     "trace is an IOError naming the place, and raw-only traces are refused. "
     "A binary trace is read through one run of trace-cmd report that asks "
     "for exactly the events with parse_raw to be unformatted, and no file is "
     "left behind even if that or the parsing fails. Version and CPU count "
     "are those of the first such header lines before the first event, absent "
     "ones are None, and header lines never become events.",
     ["inputs", "configurations"],
     "all subsets of files, header lines and values",
     "A few fixed folders.",
     ["trappy/ftrace.py"],
     [("path", "ftrace.py:__process_path"),
      ("metadata", "ftrace.py:__get_trace_metadata")],
     observe=["trace_path", "_version", "_cpus", "metadata"])

prop("C31", "Thermal and power plots show exactly the data of the trace",
     "Plots of temperatures show every reading of the zone asked for in "
     "degrees with its target, those of powers one line per actor in the "
     "order given, weighted by weight/1024 if asked for, and those of loads "
     "and frequencies every value of each cluster and the GPU at its time in "
     "order of time, gaps filled with the value before. Histograms hold the "
     "data their title names, in its unit, automatic axis limits contain all "
     "data and explicit ones are used as given. Plots of several runs give each run its own named axis or "
     "line, and runs without the data lose nothing of the others.",
     ["inputs", "configurations"],
     "all small data sets, limits and sizes",
     "Tests only assert that plotting does not raise.",
     ["trappy/plot_utils.py", "trappy/thermal.py",
      "trappy/pid_controller.py", "trappy/ftrace.py",
      "trappy/compare_runs.py"],
     [("limits", "plot_utils.py:set_lim"),
      ("temperatures", "thermal.py:plot_temperature"),
      ("loads and frequencies", "ftrace.py:plot_load, plot_allfreqs")],
     observe=["points, titles and limits handed to the drawing layer"])

prop("C32", "Static line and bar plots show every selected point",
     "A static plot draws, for each pivot value, trace and column, one line, "
     "scatter or group of bars with exactly the points of the selected data "
     "at their times, on the axis titled after it, and nothing else. "
     "Concatenating, permuting, stacking, filling, map_label and colours only "
     "change where and how these are drawn, never which values. Legends name "
     "the line they stand for, explicit axis limits are used as given, and "
     "arguments registered for forwarding, and only those, reach every line.",
     ["inputs", "configurations"],
     "all small tables and option combinations",
     "Tests only assert that plotting does not raise.",
     ["trappy/plotter/StaticPlot.py", "trappy/plotter/LinePlot.py",
      "trappy/plotter/BarPlot.py", "trappy/plotter/PlotLayout.py"],
     [("lines", "LinePlot.py"), ("bars", "BarPlot.py"),
      ("axes and legend", "StaticPlot.py:_plot")],
     observe=["lines, bars, titles, legends handed to the drawing layer"])

prop("C33", "Interactive line plots hand all selected points to the browser",
     "The data an interactive plot hands to the browser holds, for each pivot "
     "value, trace and column, every selected point at its time under its "
     "label, with other series only interpolated in between, and is rejected "
     "rather than cut if it exceeds the limit. Titles, cell order, colours, "
     "limits, fill, step and scatter options are those asked for.",
     ["inputs", "configurations"],
     "all small tables and option combinations",
     "Tests only assert that plotting does not raise.",
     ["trappy/plotter/ILinePlot.py", "trappy/plotter/ILinePlotGen.py"],
     [("series", "ILinePlot.py:_plot"),
      ("duplicate times", "ILinePlot.py:_fix_indexes"),
      ("json", "ILinePlotGen.py:df_to_dygraph")],
     observe=["JSON data and options in the generated page"])

prop("C34", "The scripts of interactive plots are installed whole before use",
     "Showing an interactive plot first puts every script and image that its "
     "page refers to in the place the page names, the package's own files as "
     "fresh copies, those from the web downloaded once. If a download is "
     "refused, cut short or interrupted, nothing is shown, the failure is "
     "reported, what is incomplete is never taken for the script, and the "
     "next attempt downloads what is still missing.",
     ["fault schedules", "crash points", "inputs"],
     "all sequences of up to two or three failing attempts",
     "There is no network in the tests; failures are not tested.",
     ["trappy/plotter/IPythonConf.py", "trappy/plotter/EventPlot.py",
      "trappy/plotter/ILinePlotGen.py"],
     [("installation", "IPythonConf.py:iplot_install"),
      ("downloads", "IPythonConf.py:install_http_resource"),
      ("paths in pages", "EventPlot.py:_init_html")],
     observe=["files in the data directory of Jupyter", "pages displayed"])

prop("C35", "plot_trace shows when and where the selected tasks ran",
     "Given a trace object or the path of a text or systrace file, "
     "plot_trace() displays one event plot with a lane for every CPU of the "
     "trace (as its header tells, or else as many as were used) whose data "
     "are exactly the intervals in which the selected tasks ran on each CPU, "
     "over the time from the first to the last context switch. Tasks that "
     "were not selected appear nowhere.",
     ["inputs", "histories"],
     "all short histories of context switches",
     "Tests need a browser to see the plot; only the data helper is tested.",
     ["trappy/plotter/__init__.py", "trappy/plotter/Utils.py",
      "trappy/plotter/EventPlot.py"],
     [("plot", "plotter/__init__.py:plot_trace"),
      ("intervals", "Utils.py:get_trace_event_data"),
      ("page", "EventPlot.py:EventPlot")],
     observe=["JSON data in the displayed page"])

prop("C36", "Plots of benchmark results show every score inside the axis",
     "Plotting one or all workloads of a results table draws a bar for every "
     "score of every run and iteration of that workload and for nothing "
     "else, on the axis of the results, titled after the workload unless a "
     "title is given, with a legend. After enlarging the axis every score of "
     "the given data lies inside it with a margin at each moved end, nothing "
     "shown before is lost, and an end beyond all scores stays as it was.",
     ["inputs"], "all small tables and axis limits",
     "Tests check one table from a file.",
     ["trappy/wa/results.py"],
     [("bars", "results.py:plot_results_benchmark"),
      ("limits", "results.py:enlarge_axis")],
     observe=["bars, titles and limits handed to the drawing layer"])

prop("C37", "Event plots in the page draw every interval in its place",
     "At every time window a user zooms, pans, drags, or resizes the page to, "
     "the main area of an event plot shows exactly the parts of each "
     "process's intervals inside it, in their lanes and the process's colour, "
     "scaled like the axis below, and the summary shows all of them and the "
     "window. Markers stay at the times they were set at, their times and "
     "distance are told, and pointing at an interval tells its process, "
     "start, end and length. Several plots of a page do not affect each "
     "other.",
     ["inputs", "history"], "all intervals, windows and sequences of a few "
     "gestures",
     "No test runs the scripts; the page is only ever looked at by hand.",
     ["trappy/plotter/js/EventPlot.js", "trappy/plotter/EventPlot.py"],
     [("paths of the intervals in a window", "EventPlot.js:_get_path"),
      ("zoom and summary follow each other", "EventPlot.js:zoomTo"),
      ("what is pointed at", "EventPlot.js:getCurrentInfo")],
     observe=["paths, axes, texts and rectangles on the page"])

prop("C38", "Interactive line plots in the page show their data, in step",
     "Each interactive line plot is drawn once, in its own place and share of "
     "the page's width, before and after resizing, with exactly the data, "
     "labels, options, limits and colours it was given. All plots of a group "
     "that are still on the page show the same range of times and values, the "
     "smallest that holds what each of them shows, and can be zoomed out to "
     "it; they are zoomed together exactly if that was asked for. Plots of "
     "other groups or of none are left alone.",
     ["inputs", "history"], "all ranges, groups and orders of a few plots",
     "No test runs the scripts; the page is only ever looked at by hand.",
     ["trappy/plotter/js/ILinePlot.js", "trappy/plotter/ILinePlotGen.py"],
     [("options", "ILinePlot.js:create_graph"),
      ("groups", "ILinePlot.js:sync"), ("removed plots", "ILinePlot.js:purge")],
     observe=["data, options, ranges and sizes handed to dygraphs"])

TECH = ("symbolic execution of the repository's Python source with z3 "
        "(AST-instrumented, path-complete within bounds), counterexamples "
        "replayed on the untouched code")
NOTES = {}
JS = ("symbolic execution of the repository's JavaScript with z3 (syntax tree "
      "interpreted on symbolic values, path-complete within bounds), "
      "counterexamples replayed on the untouched script in node")
TECHS = {"C37": JS, "C38": JS}
NA = {}


def main():
    ids = [p["id"] for p in P]
    assert len(ids) == len(set(ids))
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, p["id"]
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as out:
        for p in P:
            out.write(json.dumps(p) + "\n")
    have = {i for i in ids if os.path.exists(
        os.path.join(ROOT, "harness", i.lower() + ".py"))} - set(NA)
    checks = []
    for i in ids:
        if i not in have:
            continue
        cmd = "/opt/venv/bin/python check.py %s --tier " % i
        checks.append(dict(
            property=i, quick_cmd=cmd + "quick", thorough_cmd=cmd + "thorough",
            technique=TECHS.get(i, TECH), level="model_checking",
            level_note=NOTES.get(i, NOTE)))
    na = [dict(property=i, reason=NA.get(i, "no check built yet"))
          for i in ids if i not in have]
    man = dict(version=1, setup_cmd="/opt/venv/bin/python setup_check.py",
               checks=checks, not_applicable=na,
               notes="No hooks in /repo are needed. Exit 0 with INCONCLUSIVE "
               "or INCOMPLETE lines means that part of the bounded space was "
               "not decided; the evidence file counts it.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as out:
        json.dump(man, out, indent=1)
        out.write("\n")
    print(len(P), "properties,", len(checks), "checks")


NOTE = ("Bounded: every path of the scenarios in harness/ (bounds listed per "
        "case in the evidence) is decided by z3 for all values; floats are "
        "encoded as reals, pandas/numpy run natively on opaque symbolic "
        "cells, and every counterexample is replayed on the untouched code.")

if __name__ == "__main__":
    main()
