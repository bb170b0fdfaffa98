#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json.
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, level, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files.split(), mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or ["the saved bytes", "returned errors"], hook_needed=None), level=level))

core = "pdft.go pdf_data.go pdf_parse.go pdf_obj_data.go pdf_obj_properties_data.go pdf_obj_property_data.go"

p("C01", "Every saved document is structurally sound",
  "Whenever saving a document that was opened from a valid template reports success, whatever fonts, texts, borders, images and page operations were applied in whatever order, the bytes written are one complete, well-formed PDF. Its cross-reference table and trailer name every object at its exact offset, every stream has exactly its declared length and decodes, no dictionary gains a repeated key, every reference resolves, and the page tree (counts, kids, parents) is consistent.",
  "inputs histories", "all valid templates within the documented limits x all sequences of edits and saves",
  "The tests open a handful of sample files with one fixed edit sequence each and mostly check that no error is returned; they never parse the output.",
  core + " xref_data.go minigopdf/subset_font_obj.go",
  [("object table, offsets and trailer are rewritten on save", "pdf_data.go bytes/bytesOfXref"), ("objects re-serialised from parsed properties", "pdf_obj_properties_data.go")],
  "saved bytes are parsed by an independent strict PDF reader on every save of every run")

p("C02", "What the template contains is kept",
  "Everything reachable from the catalog and the information dictionary of the template - page content, order, sizes, rotation, fonts, images, annotations, outlines, form fields, metadata, strings and streams - is in the saved document with the same value. The only differences are the inserted material and the page operations that were asked for.",
  "inputs histories", "all valid templates within the documented limits x all edit sequences",
  "The tests compare nothing of the template with the output; object forms differ per producing program and the samples cover eleven files.",
  core + " crawl.go crawl_result.go",
  [("property parser and writer keep what they do not understand", "pdf_obj_property_data.go, pdf_parse.go"), ("content streams are extended, not replaced", "pdf_data.go")],
  "object graph of template and output are compared from catalog and Info down on every save")

p("C03", "Inserted text is on its page exactly once, exactly as asked",
  "Every text whose insertion was accepted, for a page number the document has when saved, is on exactly the page with that number in the saved document exactly once, in insertion order, with the requested font, size, position, alignment, style, border lines, kerning, rise and colour, and drawn on top of the template's content and independent of the graphics state that content leaves behind. Reading the document back by its own embedded font data gives the same characters (those the font has) with the font's own widths and outlines, and nothing else was added to any page.",
  "inputs histories", "all sequences of font, style, colour, kerning and text calls x fonts x pages x templates",
  "The tests insert one or two strings with one font and do not read the text back.",
  "pdft.go content_text.go contenter.go pdf_data.go pdf_font_data.go pdf_parse_font.go func_textrise_override.go minigopdf/subset_font_obj.go minigopdf/cache_content_text.go minigopdf/cid_font_obj.go minigopdf/unicode_map.go minigopdf/pdf_dictionary_obj.go minigopdf/fontmaker/core/ttfparser.go",
  [("list of pending insertions written at save", "pdft.go build, content_text.go"), ("subset of the font follows the characters used", "minigopdf/subset_font_obj.go, pdf_dictionary_obj.go")],
  "content streams are interpreted; glyphs are decoded by ToUnicode, widths and outlines compared with the generated font")

p("C04", "Inserted images are on their page exactly once, pixel for pixel",
  "Every image whose insertion was accepted, for a page number the document has when saved, is drawn exactly once on exactly the page with that number at the requested place and size, in insertion order, and nothing else was drawn. The image in the saved document has the same pixels and transparency as the file given (JPEG: the same bytes), and an image given again is stored only once.",
  "inputs histories", "all sequences of image insertions x PNG/JPEG forms (colour type, depth, palette, transparency, chunking) x pages",
  "The tests insert two sample images and do not decode them from the output.",
  "pdft.go content_img_base64.go pdf_image_data.go pdf_data.go minigopdf/image_obj.go minigopdf/image_obj_parse.go minigopdf/smask_obj.go minigopdf/device_rgb_obj.go minigopdf/img_info.go",
  [("image parsed once and cached by its data", "pdft.go, pdf_image_data.go"), ("PNG split into colour, mask and palette objects", "minigopdf/image_obj_parse.go")],
  "Do operators are interpreted and the image objects decoded and compared with the generated pixels")

p("C05", "Page operations act like operations on a list of pages",
  "Duplicating a page, removing a page and keeping a single page change the document exactly as the same operations change a list of pages, for every sequence of them, before, between and after saves, and the reported page count is always the length of that list. A page number that does not exist is refused with an error and changes nothing. Inserted text and images stay with the page number they were inserted for.",
  "inputs histories", "all sequences of page operations x page trees (flat, nested, inherited attributes) x page numbers in and out of range",
  "The tests call each operation once on a flat two-page sample and only look for an error.",
  "pdft.go pdf_data.go pdf_parse.go",
  [("kids of the page tree are rewritten", "pdft.go DuplicatePageAfter/RemovePage/RemoveOtherPages")],
  "a list model runs beside the library; contents and boxes of every page of the output are compared")

p("C06", "Saving is repeatable and saving and editing can alternate",
  "Saving does not change the session: saving twice in a row by any of the ways to save gives identical bytes, a save that failed can be retried, and edits made after a save are in the next one together with all earlier ones, each exactly once.",
  "histories fault_sequences", "all interleavings of edits, successful saves and failing saves",
  "Every test saves once; no test saves again or after an error.",
  "pdft.go pdf_data.go",
  [("save works on a copy of the parsed document", "pdft.go build")],
  "bytes of consecutive saves are compared; every save is checked in full; writers and disks fail at drawn points between them")

p("C07", "Storage failures are reported; success means the complete file",
  "If any write to the caller's writer or any open, write or close of the destination file fails or moves fewer bytes than asked, the save (Save, SaveTo, or WritePdf of the generator) returns an error, and if the save returns success the destination holds exactly the complete document. At whatever point a save stops, what was written is a prefix of the document and never looks like a complete one. Successful or failed, a call leaves no file open.",
  "fault_sequences crash_points inputs", "all failure points of writer and file system calls (error, short write, full disk, interrupted call, crash) x documents",
  "No test injects a failing writer or disk.",
  "pdft.go",
  [("error checks around every write and close", "pdft.go Save/SaveTo")],
  "faults at drawn calls of a simulated writer and of the real system-call layer; destination bytes compared with the document")

p("C08", "Input delivery does not matter; read failures are reported",
  "The result does not depend on how the template, fonts and images given as readers or files are delivered: single bytes, short reads, empty reads, data together with end of file, or interrupted calls give the same document as one large read. A reader or file that fails before its end makes the call return an error; in either case no file stays open.",
  "inputs fault_sequences", "all deliveries (chunkings, EINTR, error positions) of all inputs",
  "Tests read local files in one go.",
  "pdft.go pdf_parse.go minigopdf/fontmaker/core/ttfparser.go minigopdf/image_obj.go render/render.go",
  [("readers are drained completely with error checks", "pdft.go OpenFrom, AddFont; render/render.go")],
  "the same plan runs with plain and with drawn deliveries; outputs must be equal; error deliveries must be reported")

p("C09", "Independent sessions do not influence each other",
  "Any number of sessions (templates being filled, render jobs, documents being created) running at the same time in one process, each used by one goroutine, give exactly the results each would give alone. This includes sessions that use the same font bytes, image bytes, template bytes or passwords.",
  "schedules inputs histories", "all interleavings at statement granularity of 2 to 4 sessions x their call sequences",
  "Tests run one session at a time; the race detector sees only what happens to overlap.",
  "pdft.go pdf_data.go minigopdf/pdf_protection.go minigopdf/subset_font_obj.go minigopdf/gopdf.go render/render.go textbreak/basic_textbreak.go",
  [("no mutable package state; per-session objects", "all packages")],
  "a seeded scheduler switches between sessions at any statement; every result is compared with the session running alone")

p("C10", "Output is determined by the inputs and calls alone",
  "The same inputs and the same calls give byte-identical documents every time, whatever the time of day, the process, map iteration order or what ran before. Protection without an owner password, which draws one at random, is the only exception.",
  "histories schedules configurations", "all call sequences x map orders x clocks x entropy",
  "Tests never compare two runs, and one run sees one map order.",
  "pdft.go pdf_data.go crawl.go minigopdf/pdf_dictionary_obj.go minigopdf/cid_font_obj.go minigopdf/subset_font_obj.go render/render.go",
  [("objects and names are written in sorted or insertion order", "pdf_data.go, minigopdf/pdf_dictionary_obj.go, render/render.go")],
  "each plan runs under several drawn map seeds, clocks and entropy streams; bytes must be equal")

p("C11", "A protected document decrypts to the unprotected one",
  "A document saved with protection opens with the user password and with the owner password and with no other, carries exactly the requested permissions, and decrypts to the very document the same calls produce without protection - every string and every stream, of the template and of what was inserted.",
  "inputs histories", "all templates, edits, passwords (empty, long, any bytes) and permission sets",
  "The tests never decrypt what they write.",
  "pdft.go pdf_data.go pdf_obj_data.go pdf_obj_properties_data.go minigopdf/pdf_protection.go minigopdf/encryption_obj.go",
  [("RC4 with a key per object over exact stream bytes and strings", "minigopdf/pdf_protection.go, pdf_data.go")],
  "an independent implementation of the standard security handler authenticates both passwords and decrypts; graphs are compared")

p("C12", "The default owner password cannot be predicted",
  "When protection is set without an owner password, the one that is made cannot be derived from the clock, the user password, earlier documents or the state of the process's ordinary random number generator: it comes from the system's entropy source and differs whenever that differs. Making it leaves the program's own sequence of random numbers alone.",
  "histories configurations", "all clocks, random generator seeds, entropy streams and earlier calls",
  "A test cannot see where randomness comes from.",
  "minigopdf/pdf_protection.go pdft.go",
  [("random owner password", "minigopdf/pdf_protection.go setProtection")],
  "clock, entropy and PRNG are simulated; documents under different and equal entropy are compared and guessed")

p("C13", "A call that fails has no effect",
  "A call that returns an error - unknown font, missing character width, bad page number, unreadable font or image, failing text breaker - leaves the session as if it had not been made: everything saved later is the same as without that call.",
  "histories fault_sequences inputs", "all call sequences x positions and kinds of failing calls",
  "Tests stop at the first error and never continue a session after one.",
  "pdft.go pdf_data.go content_text.go minigopdf/subset_font_obj.go render/render.go",
  [("arguments are checked before the session is changed", "pdft.go Insert/InsertImg/DuplicatePageAfter/RemovePage")],
  "each plan runs with and without its failing calls; saved bytes must be equal")

p("C14", "Damaged input gives an error, never a panic or endless loop",
  "Opening, editing and saving with a damaged, truncated or inconsistent template, or a damaged or truncated image or font ends with a result or an error after a bounded amount of work. It never panics, never runs forever and never kills the process.",
  "inputs fault_sequences", "all corruptions (flipped, removed, repeated, truncated, swapped pieces, cyclic and dangling references) of valid inputs",
  "Tests use valid files only.",
  "pdf_parse.go pdf_data.go pdf_obj_data.go crawl.go pdf_obj_property_data.go minigopdf/image_obj_parse.go minigopdf/fontmaker/core/ttfparser.go pdft.go",
  [("bounds and cycle checks in the parsers", "pdf_parse.go, crawl.go, minigopdf/image_obj_parse.go")],
  "drawn storage damage between write and read; panics, process death and a work bound in executed statements are monitored")

p("C15", "Documents created from scratch are correct and repeatable",
  "A document made with the bundled generator has exactly the pages, texts, cells, lines, images and information that were put in, is structurally sound, and if protected decrypts with its passwords. Fetching it as bytes, as a file or through reads of any sizes gives the same bytes every time. Starting again with the same object begins a new document with nothing of the one before.",
  "inputs histories", "all sequences of page, font, text, cell, image, line and info calls x ways and sizes of reading x passwords",
  "The generator has no tests in this repository that look at its output.",
  "minigopdf/gopdf.go minigopdf/content_obj.go minigopdf/page_obj.go minigopdf/pages_obj.go minigopdf/image_obj.go minigopdf/smask_obj.go minigopdf/encryption_obj.go minigopdf/cache_content_text.go minigopdf/list_cache_content.go",
  [("compilePdf writes all objects; Read serves from the compiled buffer", "minigopdf/gopdf.go")],
  "output of every way and chunking of reading compared; parsed, decrypted and interpreted as in C01, C03, C04, C11")

p("C16", "Opening a template again starts afresh",
  "Opening a template on a session that was used before, after success or failure of anything, gives the same documents as doing the same with a new session that has the same protection. Nothing of the previous template, its insertions, fonts, images or page operations comes through.",
  "histories fault_sequences", "all histories before the second open (including failed opens and saves) x all after it",
  "No test opens twice on one value.",
  "pdft.go pdf_data.go",
  [("state is reset on open", "pdft.go OpenFrom/Open")],
  "the tail of each plan also runs on a fresh session; bytes must be equal")

p("C17", "Data handed over stays the caller's",
  "The library neither changes byte slices, colours, options and passwords passed to it nor reads them again after the call returned, and results it handed out do not change later. A caller who reuses or overwrites its buffers gets the same documents.",
  "histories inputs", "all call sequences x overwriting every buffer after the call that used it",
  "Tests never reuse a buffer.",
  "pdft.go content_text.go content_img_base64.go minigopdf/pdf_protection.go minigopdf/gopdf.go render/render.go",
  [("values are copied or consumed within the call", "pdft.go, minigopdf/pdf_protection.go")],
  "every buffer is checked for change and then overwritten after each call; saved bytes compared with a run that leaves them alone")

p("C18", "Saved documents can be edited again",
  "A document this library saved can be opened again as a template, any number of times, and edited with the full set of operations, and the result contains everything of all generations exactly once and correctly. The exception is a document saved with protection: without its key it cannot be read, so opening it as a template returns an error and leaves the session as it was.",
  "histories inputs", "all chains of open, edit, save x templates x edits",
  "No test opens a document the library wrote.",
  "pdft.go pdf_data.go pdf_parse.go",
  [("names of added fonts and images avoid existing ones; output is within what the parser accepts", "pdf_data.go")],
  "generations are chained in one run; each save is compared with its own template and model")

p("C19", "Render puts each value at the field of its key, nothing else",
  "For any list of fields, rendering a text or an image by key puts it, exactly once per call, at the field of that key - its page, box, font, size, alignment and line wrapping - and nothing anywhere else; of fields with the same key the last one listed counts, and a key without a field changes nothing and is not an error. The design view shows the box and the name of every field exactly once.",
  "inputs histories", "all field lists (repeated keys, several pages, wrapped fields) x sequences of text and image calls",
  "The tests render one sample and do not read it back.",
  "render/render.go render/field_info.go pdft.go",
  [("fields looked up by key", "render/render.go")],
  "output interpreted and compared with the model of the field list")

p("C20", "Wrapped text loses and invents nothing",
  "The lines wrapped text is broken into consist, in order, of exactly the pieces the text breaker gave, without white space at their ends; a line is never wider than the box unless it is a single piece, and no line is broken before it has to. Each line is 1.2 times the font size below the one before (the block centred on the first line if alignment asks for the middle), and an error of the text breaker is returned and inserts nothing.",
  "inputs histories", "all strings x widths x fonts and sizes x text breakers (including failing ones)",
  "Tests break one Thai and one English sample into pieces and never look at the lines.",
  "pdft.go textbreak/basic_textbreak.go textbreak/text_breaker.go render/render.go",
  [("greedy line filling by measured width", "pdft.go InsertWrapText"), ("pieces and the spaces between them", "textbreak/basic_textbreak.go")],
  "lines read back from the saved document are compared with the input and with the widths of the generated font")

p("C21", "The font maker describes the font it was given, or fails",
  "When making a font reports success, the compressed file decompresses to the bytes of the font, and the definition file is Go source whose 256 widths (a code the encoding does not name or the font does not have gets the width of the missing glyph), name, underline, descriptor, original size and differences against cp1252 are those of the font and the encoding, whatever files were there before; the results name the files and every character the font lacks. The same inputs always give the same files. A font whose licence forbids embedding, a missing or malformed font or encoding, or any failure to read or write gives an error and never a panic, no file stays open, and the call can be repeated afterwards.",
  "inputs fault_sequences crash_points histories schedules", "all fonts x encodings x earlier contents of the folder x failures at every file operation x several font makers at work",
  "No test calls the font maker.",
  "minigopdf/fontmaker/core/fontmaker.go minigopdf/fontmaker/core/ttfparser.go minigopdf/fontmaker/core/ttf_info.go minigopdf/fontmaker/core/math.go minigopdf/strhelper.go minigopdf/fontconverthelper.go",
  [("encoding files are read line by line", "fontmaker.go LoadMap"), ("metrics scaled to 1000 units", "fontmaker.go GetInfoFromTrueType"), ("definition file is written", "fontmaker.go MakeDefinitionFile")],
  "both files are read back (the definition as Go source) and compared with an independent reading of font and encoding, under disk faults and crashes; every run is repeated under another map order and time",
  ["the two files written", "returned errors", "GetResults"])

with open(here + "/properties.jsonl", "w") as f:
    for x in P:
        y = dict(x); del y["level"]
        assert len(y["title"]) <= 80, y["title"]
        f.write(json.dumps(y) + "\n")

TECH = "deterministic simulation with fault injection: seeded search over plans, schedules and faults"
NOTE = {
 "C09": "Real library code; a seeded scheduler owns every switch between sessions at statement level. Search, not proof; statements of the standard library are not switch points.",
}
checks = []
for x in P:
    checks.append(dict(property=x["id"], quick_cmd="bash check.sh %s quick" % x["id"], thorough_cmd="bash check.sh %s thorough" % x["id"],
        technique=TECH, level="exploration",
        level_note=x["level"][0].upper() + x["level"][1:] + ". " + NOTE.get(x["id"], "Seeded search over simulated runs of the real library, not proof; trusts the harness's own PDF, font and image readers and the documented limits of generated templates.")))
NA = [
]
m = dict(version=1, setup_cmd="bash build.sh", checks=checks, not_applicable=NA,
  hooks=dict(guard="go build -overlay (no change in /repo)", enable="build.sh writes an overlay of /repo and of parts of the Go standard library into .cache and builds the simulator with it", source_commits=[]),
  notes="check.sh replay FILE runs a recorded violation again. SIM_RUNS, SIM_LIMIT and VERIF_SEED change the search.")
with open(here + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
