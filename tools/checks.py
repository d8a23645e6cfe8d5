# Checks, in the form c(id, technique, level note). Run by mkmanifest.py.
MON = "runtime monitoring of generated and hostile workloads: "
c("C01", MON + "panic/abort/work monitors (span-counting hook) on every parse entry point",
  "Held on every text explored; work is counted by a hook in the parser's spans, so the bound is in logical steps. Nesting stays below 200.")
c("C02", MON + "region monitor on every located element",
  "Held on every element of every page observed. The independent walker reads public data only.")
c("C03", MON + "differential monitor against a document model",
  "Pages are built together with their expected tree; assumes the model's reading of the syntax.")
c("C04", MON + "differential monitor against an inline model, word conservation monitor",
  "Model-built lines plus punctuation-heavy lines whose words must each be found exactly once.")
c("C05", MON + "differential monitor against a list model, progress oracle",
  "Lists are built together with their expected tree; progress recomputed independently.")
c("C06", MON + "differential monitor against a grid model",
  "Spans, alignment, iteration recomputed from the grid written.")
c("C23", MON + "metamorphic monitor over line endings and padding",
  "Relates parses of variants of a text; needs no model.")
c("C07", MON + "round-trip monitor (parse, format under a random configuration, parse)",
  "Compared as trees after the whitespace each configuration normalises; two tests of the suite pin one deviation (known finding).")
c("C08", MON + "reference renderer, idempotence and determinism monitors",
  "Every formatted page compared byte by byte with an independent renderer of its parsed tree.")
c("C09", MON + "strict HTML tokenizer and content-model monitor",
  "Every tag, attribute and character reference of the output is judged; user attributes are allowed by the names written.")
c("C10", MON + "differential monitor against an independent HTML renderer",
  "Trees come from the generator's model, or from the parser for hostile pages; ids and addresses are left to C11 and C12.")
c("C11", MON + "differential monitor of resolved addresses against chosen targets",
  "Targets are chosen before links are written; addresses are resolved as a browser would. Symbolic links of file systems play no part.")
c("C12", MON + "id and fragment monitor over pages with known anchors",
  "Texts are unique or repeated as a whole; ids of repeated texts are only required to be distinct and, where their path is new, to have that path.")
c("C13", MON + "differential monitor of templates filled in",
  "Values are known before; the content is that of the page converted alone. Template files live in a scratch directory.")
c("C14", MON + "differential monitor against a model on lists of names",
  "Paths are absolute and free of dots; nothing is read or written.")
c("C15", MON + "round-trip monitor through JSON, damage monitor",
  "Compared by an independent tree, by regions, HTML and formatted text; the order of keys in JSON is not looked at.")
c("C16", MON + "metamorphic monitor over copies, moved and changed pages, with an independent tree as the judge",
  "Owned copies are looked at after their text is gone; addresses differing in case or encoding may be equal.")
c("C17", MON + "file-system event log of the real program (LD_PRELOAD), snapshots before and after, differential content monitor",
  "The program runs as an unprivileged user; a temporary wiki for a path inside a configured wiki is not claimed; a file given as an argument with another extension is not claimed.")
c("C18", MON + "file-system event log of the real program (LD_PRELOAD), snapshots before and after, differential content monitor",
  "The program runs as an unprivileged user, so that files can be unreadable; a rewrite cut short by a crash is not claimed to keep the old text.")
c("C19", MON + "history monitor: results and cache against fresh parses after every step, file-system event log",
  "Runs follow one another; runs at the same time are part of C20. Entries are compared as pages.")
c("C20", MON + "fault and crash-point injection (LD_PRELOAD) at every file operation, damaged entries, programs at once",
  "Kills and failures enumerate all operations of a run; truncations are enumerated for small entries; loss of power is not modelled, nor damage that leaves a well-formed page.", level="fault_enumeration")
c("C24", "ThreadSanitizer and " + MON + "differential monitor over orders, threads, processes and time keeping; counted calls against the report",
  "ThreadSanitizer runs a share of the cases, with the standard library rebuilt under it. Of the report of time keeping, the contexts and numbers of calls are judged, not the times.")
c("C25", MON + "differential monitor of configurations read against a table of options, round-trip monitor; the real program with a stand-in for vim",
  "Defaults are written down in the monitor; vim is a script that prints the list of wikis.")
c("C22", "AddressSanitizer, ThreadSanitizer and Miri (undefined-behaviour interpreter) over generated and hostile workloads, with monitors on unchecked conversions (hook) and on every borrowed slice",
  "The standard library is rebuilt under the sanitizers. Miri sees single elements and tiny pages only, as it takes seconds for each; leaks are not looked at.")
c("C21", MON + "generated programs that compare values built by macros with the parser's at run time",
  "Every program is compiled against the library by rustc directly; texts refused by the parser are not tried. Arguments are plain words and numbers, where putting them in does not change the elements.")
c("C26", MON + "differential monitor of everything seen through the bindings against the library's page; constructors against their arguments",
  "The bindings run natively against stand-ins for wasm-bindgen and js-sys (time zone UTC), as no WebAssembly runtime with them is here; the glue code that wasm-bindgen generates is not covered.")
c("C27", MON + "differential monitor of every accessor against the parts a link was built from, round-trip monitor",
  "Links are built from parts chosen before; a local anchor on path / and the directory of an empty path are not judged.")
c("C28", MON + "every view of every element observed compared with its plain fields",
  "The views of tables are part of C06, those of links of C27, children and equality of C16.")
