"""The checks: property -> how it is decided."""
import p_parse
import p_tform
import p_tree

BASE = ["the projection of the program's objects (lib/proj.py) reads public attributes only and is right",
        "TLC and the CommunityModules evaluate the specification correctly"]


def docs(*more, **kw):
    def run(ctx):
        p_tform.check(ctx, **kw)
        for m in more:
            m(ctx)
    return run


CHECKS = {}
NA = {}
TECH = "TLA+ specification checked with TLC; traces of the real code validated against it"


def reg(prop, run, rule, note, level="model_checking", assumptions=(), technique=TECH):
    CHECKS[prop] = dict(run=run, rule=rule, level=level, note=note, technique=technique,
                        assumptions=BASE + list(assumptions))


RULE_T = ("states are those of the specification (spec/Documents.tla over every small document of a family, and "
          "spec/TransformTrace.tla and spec/TranslateTrace.tla over every recorded run); a trace is one run of the real "
          "program judged by one of the two, on a document that TLC enumerated or that was generated from the seed; "
          "distinct by construction, every one is processed by all stages")
NOTE_T = ("Exhaustive for the small documents of the property's families, which TLC enumerates and checks against "
          "declarative invariants and which are replayed into the real program (in the quick tier a spread-out part of "
          "large families); larger generated documents are checked by trace validation of the processed tree and of "
          "both rendered pages. Trusts the projection in lib/proj.py and TLC.")
NOTE_P = ("Exhaustive for the small documents of the property's families, whose pages TLC derives and checks for the "
          "property and compares with the pages of the real program; larger generated documents are checked by trace "
          "validation of both rendered pages. Trusts the HTML tokeniser in lib/proj.py and TLC.")
for _p in ("C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C13"):
    reg(_p, docs(), RULE_T, NOTE_T)
for _p in ("C12", "C14", "C16", "C27", "C28", "C29"):
    reg(_p, docs(transform=False), RULE_T, NOTE_P)

for _p in ("C01", "C02"):
    reg(_p, p_tree.check,
        "states are the forests that spec/NodeTree.tla reaches over a set of nodes, and the states of the recorded histories; "
        "a trace is one forest with every edit (or query) tried in it in the real classes, or one random history of edits",
        "Exhaustive over every forest of four (thorough: five) nodes of several kinds: every edit and every query, in every "
        "reachable forest, is carried out by the real classes and judged by the specification. Random histories of up to 12 "
        "nodes and 50 edits on top. Trusts that parent and children report the stored structure.")

for _p in ("C17", "C18", "C19", "C20"):
    reg(_p, p_parse.check,
        "states are the sources that spec/Sources.tla writes (with the invariants it checks on their meaning) and the recorded "
        "runs; a trace is one source given to the real parser whose tree is compared with Meaning (spec/Parse.tla), or one whose "
        "page is compared with spec/Translate.tla, or one source with errors judged by spec/RecoverTrace.tla",
        "Exhaustive for what can be written with two or three things at one place of a document (inline items and white space, "
        "blocks, metadata entries, characters); generated documents in varied layouts on top. The grammar is a separate program "
        "and trusted for what it recognises in sources with errors. Trusts lib/gen.py to write out what the document says.",
        assumptions=["lib/gen.py writes the source text that the abstract document describes"])

import p_runs  # noqa: E402
reg("C15", p_runs.check,
    "states are those of spec/Runs.tla (interleaved stages of two documents; sequences of calls) and of the recorded runs; a "
    "trace is one such behaviour carried out by the real program in one process, whose results, logs and trees are compared "
    "with those of processes that handle one document only (and run with another hash seed)",
    "Exhaustive for the orders in which the stages of two documents can be interleaved (stage objects shared or not, documents "
    "that are refused by the parser or the transformer, every translation twice) and for the sequences of three calls of the "
    "library (in the quick tier a spread-out part); the documents themselves are drawn from a generated pool.")

import p_lint  # noqa: E402
reg("C21", p_lint.check,
    "states are the sources that spec/Sources.tla writes for the linter and the recorded runs; a trace is one source linted by "
    "the real program, whose reports are compared with those of spec/Linter.tla and with the places at which the elements were "
    "written into the source",
    "Exhaustive for sequences of up to three (thorough: four) headings, paragraphs, equations and holders of equations; generated "
    "documents in varied layouts on top. Columns are not judged after non-ASCII text on the same line.",
    assumptions=["lib/gen.py knows where it writes the elements"])

import p_app  # noqa: E402
reg("C22", p_app.check_c22,
    "states are those of spec/LoggerRuns.tla and spec/AppCalls.tla and of the recorded runs; a trace is one history of configuring "
    "the log and logging events, or of calling the program (functions, classes, command line), carried out for real, whose "
    "lines are compared with those that spec/Logger.tla derives from the events",
    "Exhaustive for one configuration and one event, and for the single calls of spec/AppCalls.tla (in the quick tier a spread-out "
    "part); random histories of both. Some of the calls of the command line are real processes. The events themselves are taken "
    "from carrying out the stages one by one at the lowest level.")
reg("C24", p_app.check_c24,
    "states are those of spec/AppCalls.tla and of the recorded runs; a trace is one call of the program, or a history of calls, "
    "carried out for real, whose outcome, result, standard output and files are compared with what spec/App.tla says in terms of "
    "the stages carried out one by one",
    "Exhaustive for the combinations of entry point, source, kind of document, handrails, linting, inclusion of the source and "
    "silence; options of the log and histories of calls are sampled (exhaustive in the thorough tier). Some of the calls of the "
    "command line are real processes.")

import p_build  # noqa: E402
reg("C23", p_build.check,
    "states are those of spec/BuildRuns.tla (directories, requests, two builds) and of the recorded runs; a trace is two builds in "
    "one directory by the real program, whose files before and after and whose page are judged by spec/Build.tla",
    "The model is exhaustive for eight files of the directory and up to two assets; a spread-out part of it is carried out for "
    "real, with documents in which the pictures stand at different places, and generated documents. Assets are files beneath "
    "the current directory, given by relative paths.")

import p_page  # noqa: E402
PAGES = ("states are those of spec/HandrailsRuns.tla (the pages that the real program has rendered, with their collapsed elements, "
         "open menus, marked entries and focus) and of the recorded runs; a trace is one history of clicks and keys, carried out by "
         "the scripts of /repo in a small model of the browser (lib/js), of which every step is judged by spec/Handrails.tla")
BROWSER = ["lib/js/dom.mjs behaves as a browser does where the scripts use it (elements, selectors, events, focus, visibility)",
           "jQuery, Tooltipster, MathJax and pseudocode.js are replaced by stand-ins"]
reg("C25", p_page.check_c25, PAGES,
    "Every edge of the state graph of collapsing and expanding on the small pages (quick: up to a depth and number of steps, see the "
    "counts), random histories of all actions on these and generated pages.", assumptions=BROWSER)
reg("C26", p_page.check_c26, PAGES,
    "Every edge of the state graph of the keys on the small pages (quick: up to a depth and number of steps, see the counts), random "
    "histories of all actions on these and generated pages.", assumptions=BROWSER)
reg("C30", p_page.check_c30, PAGES,
    "Every menu entry that copies a link on every page, small or generated; random histories of all actions.", assumptions=BROWSER)
reg("C31", p_page.check_c31,
    "a trace is a page that the real program has rendered, with the contents of the tooltips that the scripts of /repo give to its "
    "links in a small model of the browser (lib/js); spec/Tooltips.tla says what they show. The states of spec/TooltipsRuns.tla are "
    "kinds of elements and of labels",
    "Exhaustive for the kinds of elements and of characters in labels of spec/TooltipsRuns.tla; generated pages.", assumptions=BROWSER)
reg("C32", p_page.check_c32,
    "states are those of spec/MinimapRuns.tla (pages, and where their sections stand while they are scrolled) and of the recorded "
    "runs; a trace is one history of mouse, focus, keys, collapsing and scrolling, carried out by the scripts of /repo in a small "
    "model of the browser (lib/js), of which every step is judged by spec/Minimap.tla",
    "Every way in which a page's sections stand in the window, in steps of its height (see the constants Grain and Many); random "
    "histories of these, of the mouse and of the focus.", assumptions=BROWSER + ["sections follow one another down the page"])
reg("C33", p_page.check_c33,
    "states are those of spec/LoadingRuns.tla (what has been loaded and what is missing); a trace is one page loaded by the scripts "
    "of /repo in a small model of the browser (lib/js) with some files or libraries missing; spec/Loading.tla says what works",
    "Exhaustive for what is missing on two pages; on the others (quick) for at most two missing at a time.", assumptions=BROWSER)
