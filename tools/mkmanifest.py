#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties that have a check."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
    "C01": "TLC enumerates every text of the bound over an alphabet of markup characters (and samples longer ones); each is read by the real parser, which must return, place every non-blank line in one element, refuse unsupported languages and render under several configurations.",
    "C02": "TLC enumerates sequences of lines of every kind and computes the blocks they announce; the real parser must give the same blocks. Longer sequences are sampled.",
    "C03": "TLC enumerates sequences of item and continuation lines and computes the tree; the real parser must give the same tree.",
    "C04": "TLC enumerates trees of items with every checkbox state and computes the progress; the real code must give the same number and class.",
    "C05": "TLC enumerates table lines and computes every cell and what the table answers; the real parser and accessors must agree.",
    "C06": "TLC enumerates grids with every subset of missing cells and every walk over them; the real iterators make the same steps.",
    "C07": "TLC enumerates fenced blocks by line and computes the lines held; the real parser must hold the same text.",
    "C08": "TLC enumerates term and definition lines; the real parser must group them the same, and look each term up.",
    "C09": "TLC enumerates token sequences of inline markup; the real parser must give the same pieces.",
    "C10": "TLC enumerates links part by part; the real parser must read the same kind, target, anchor, description and properties.",
    "C11": "TLC enumerates pages with the region of every element; the real parser must give the same offsets, lengths and depths.",
    "C12": "TLC enumerates sequences of headers, bold texts and tags and computes every anchor and link; the HTML the real code writes must carry the same ones.",
    "C13": "TLC enumerates pages under several configurations and computes the elements, attributes and texts of their HTML; the HTML the real code writes, read as a browser reads it, must consist of the same ones.",
    "C14": "TLC enumerates pages with placeholders, templates with variables and places of the page, and computes the finished document; the real document must be the same.",
    "C16": "TLC enumerates wiki layouts, file paths and configured paths by component and computes output places, owners and ways back; the real functions must agree.",
    "C15": "TLC enumerates wiki layouts, places of the page and links, and computes the file each link names; the reference the real code writes, followed from the place the page is written to, must lead there.",
    "C17": "TLC enumerates pages under five option sets and computes the text each is written as, checking on the specification that it reads as the same page and is stable; the real formatter must write that text, read it back as the same page and write it the same again.",
    "C18": "TLC enumerates sequences of conversions and pairs of pages one edit apart, with the page each holds; the real conversions must keep it and the real equalities must tell exactly what differs.",
    "C23": "TLC enumerates pages and the order in which their elements are met; walking the real page must meet the same elements with the same number of children, each surviving every conversion on its own.",
    "C24": "TLC enumerates pages with the place of every element; the real parser, given the text from each of those places as that kind of element, must return the element the specification has there.",
    "C19": "TLC enumerates pages, ways of writing them as literals and the macros that apply, and computes the text each literal stands for; generated programs that invoke the real macros are compiled and run, and every value must be strictly equal to what parsing that text gives and to what the specification says.",
    "C20": "TLC enumerates histories of edits, harm to the cache and runs, and the state every file is in after each run; the real tool goes through them in a scratch directory, and the outputs, the cache and the pages must be in the same state.",
    "C21": "TLC enumerates configurations of wikis over a tree of files, filters, paths and options, and computes every page converted, its wiki and its place; the real tool must write exactly these, each as the library renders it there.",
    "C22": "TLC enumerates trees of files, options, filters, paths and queries, and computes which files are formatted and what is parsed; the real tool must change or print exactly that.",
}
TECH = {}
NA = {}
sys.path.insert(0, os.path.join(V, "tools"))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NOTES:
        checks.append(dict(property=i, quick_cmd="python3 /verif/run.py %s quick" % i,
                           thorough_cmd="python3 /verif/run.py %s thorough" % i, evidence_file="evidence/%s.json" % i,
                           technique=TECH.get(i, "TLA+ specification checked with TLC; every behaviour TLC generates is replayed on the real code"),
                           level="model_checking",
                           level_note=NOTES[i] + " Trusted: TLC, the specification as a statement of the property, and the driver's report of what the code does. Bounds are in the evidence file."))
    else:
        na.append(dict(property=i, reason=NA.get(i, "its check is still being built")))
m = dict(version=1, setup_cmd="bash /verif/tools/setup.sh", checks=checks, not_applicable=na,
         notes="TLA+ modules in spec/, driver in harness/, one entry point run.py; see DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
