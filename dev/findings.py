#!/usr/bin/env python3
"""Source of /verif/known_findings.json (run to regenerate)."""
import json, os
F = []
def fixed(prop, commit, what): F.append(dict(property=prop, status="fixed", rule="", key="", what="fixed: property=%s %s %s" % (prop, commit, what)))
def known(prop, rule, key, what, why): F.append(dict(property=prop, status="open", rule=rule, key=key, what=what, why=why))

fixed("C01", "c9bd52c", "memory after a request of odd size was not aligned")
fixed("C02", "71656d8", "copied container kept pointing into the original")
fixed("C18", "a82a145", "two headers with equal hashes cancelled out in the cache key")
fixed("C18", "b17337a", "quoted includes with leading blanks or an underscore were not part of the cache key")
fixed("C16", "3a157af", "two work items with the same file name shared a temporary output file")
fixed("C16", "d876974", "output of a killed clang-tidy was published as result")
fixed("C16", "b51d61d", "incompletely written output was published as result")
fixed("C13", "be633d9", "pipe closed with fclose()")
fixed("C13", "c549005", "summary file written to although it could not be opened")
fixed("C29", "96446c6", "findings of checks with digits in their name, or of several names, were not counted")
fixed("C17", "70cef61", "no worker started if the number of processors is not known; nothing was processed")
fixed("C31", "19c0240", "file names and arguments not quoted in the clang-tidy command line")
fixed("C24", "7175b94", "paths became part of a regular expression unescaped")
fixed("C31", "93e0b30", "labels not quoted in the buildozer script")
fixed("C24", "a456676", "the last piece of a glob was not escaped in target patterns")
fixed("C14", "9a5354f", "directory walk visited its start directory again through a symbolic link")
fixed("C27", "428a2f7", "moved-from arena kept handing out memory of the arena moved to")
fixed("C27", "39eb37a", "content locator could be moved while its address had been handed out")
fixed("C07", "fc305ea", "newlines between 'not' and 'in' were not recorded; all later locations were wrong")
fixed("C08", "7aaae61", "function name replaced by a list: a node taken for what it is not (x = [\"a\"], x(name=\"y\"), print -e)")
fixed("C08", "442eceb", "evaluation of incomplete operators, select() and glob() crashed")
fixed("C08", "e470f11", "incomplete list elements crashed whoever read a list of strings")
fixed("C08", "e3c940a", "incomplete visibility lists crashed")
fixed("C12", "f4ec5fb", "documented option -E was not accepted")
fixed("C12", "a6be10d", "aliased-by did not follow dependencies with -r as documented")

fixed("C26", "7ef28f0", "a package whose BUILD file is readable but can not be read (a directory) was elaborated: null dereference (dwyu with a dependency on it)")
fixed("C26", "3ff4b05", "compile-flags used the empty optional of a target named ':'")

fixed("C11", "00a59df", "a target whose own package provides a header it includes through another name was proposed as its own dependency")
fixed("C10", "439985f", "dependencies were proposed for removal although srcs or hdrs could not be evaluated completely")
fixed("C10", "10d86fd", "includes with dots in a directory or other characters were not seen, and the dependency that provides them was proposed for removal")
fixed("C11", "ed74998", "a testonly dependency was proposed for a cc_binary")
fixed("C28", "e4d2b4c", "exit status of success although an option was not understood")
fixed("C21", "59d9589", "absl::CEscape made JSON and CSV that readers of these formats do not accept (its escapes of single quotes and bytes; a quote in CSV)")
fixed("C21", "199ac56", "file names and options with quotes or backslashes broke the compilation database")
for side in ("left", "right"):
    known("C10", "nothing-dropped", "VisitBinOpNode:" + side, "what is on the %s of '+' is dropped if it is not a list (srcs = [\"c.cc\"] + UNKNOWN), so dwyu proposes removals without having looked at all sources" % side,
          "evaluation does so on purpose for the sake of the other commands; keeping the unevaluated operand changes what every consumer of lists gets")
known("C12", "kind-distinct", "OutputFormat:kGraphviz=kNative", "output format 'graphviz' is accepted by -f but prints the native format (TablePrinter::Create)",
      "there is no graphviz output yet; writing one is a feature, and no longer accepting the name would remove rather than correct")
json.dump(dict(findings=F), open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json"), "w"), indent=1)
