#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so the long lines stay reviewable)."""
import json, os
PA='crates/public_api/src/'; ED='crates/document_editing/src/use_cases/'; FO='crates/document_formatting/src/use_cases/'
CO='crates/common/src/'; IO='crates/document_io/src/use_cases/'; SE='crates/document_search/src/use_cases/'; IN='crates/document_inspection/src/use_cases/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
HW="every document reachable by editing, every cursor and selection, every call and argument"
p("P01","Every edit is exactly its documented splice of the text",
 "Take the document text as its block texts joined by one separator each: an inserting call replaces exactly the cursor's selection (or inserts at the cursor) with exactly the inserted content, a deleting call removes exactly the selection or the one grapheme cluster or separator next to the cursor, and nothing else of the text changes. remove_selected_text returns exactly the text it removed. A call that is documented to do nothing (delete at the edge, remove without selection) and every pure formatting, query or navigation call leave the text alone.",
 ["histories","inputs"],HW+", any Unicode text including multi-code-point clusters",
 "Tests assert a handful of fixed strings; offsets are converted between chars, bytes, blocks and a rope in many places and errors need a particular mix of earlier edits, multi-byte text and selection direction.",
 [PA+"cursor.rs",ED+"insert_text_uc.rs",ED+"delete_text_uc.rs",ED+"insert_block_uc.rs",ED+"insert_fragment_uc.rs",CO+"database/rope_helpers.rs"],
 [("insert_text fast path / composite for cross-block selections",PA+"cursor.rs insert_text"),("block lookup and byte/char conversion",ED+"editing_helpers.rs"),("rope splice",CO+"database/rope_helpers.rs"),("cross-block delete and merge",ED+"delete_text_uc.rs")],
 [("blocks","ordered block texts",CO+"database/rope_store.rs")],["TextDocument::blocks / to_plain_text after each call"])
p("P02","Character formatting follows its characters",
 "Characters an edit does not touch keep exactly their character format; inserted plain text takes the format of the character it is typed after, and inserted formatted text takes the given format. set_char_format and merge_char_format change exactly the given fields of exactly the selected characters and nothing else.",
 ["histories","inputs"],HW+" and every combination of format fields",
 "Format runs are byte ranges shifted, split and merged on each edit; tests cover single edits on short ASCII text, not long histories in which run boundaries, multi-byte text, splits and merges interact.",
 [CO+"format_runs.rs",FO+"set_text_format_uc.rs",FO+"merge_text_format_uc.rs",ED+"insert_text_uc.rs",ED+"insert_formatted_text_uc.rs",ED+"delete_text_uc.rs",ED+"insert_block_uc.rs"],
 [("shift/splice/coalesce of byte runs",CO+"format_runs.rs"),("per-run overwrite of the selected range",FO+"set_text_format_uc.rs")],
 [("format runs","sorted byte ranges with a format per block",CO+"format_runs.rs")],["TextBlock::fragments"])
p("P03","Blocks keep identity and attributes; block formatting hits its range",
 "A block not cut or joined by an edit keeps its id, paragraph format and list membership; splitting keeps the first half's id and copies its format and list to the new block, and a deletion across blocks keeps the first block. set_block_format changes exactly the given fields of exactly the blocks the selection touches.",
 ["histories","inputs"],HW,
 "Block positions are cached and block selection is by computed ranges; wrong blocks are hit only after particular earlier edits shift positions.",
 [ED+"insert_block_uc.rs",ED+"delete_text_uc.rs",FO+"set_block_format_uc.rs",CO+"database/block_offset_index.rs"],
 [("block range selection",FO+"set_block_format_uc.rs"),("block split",ED+"insert_block_uc.rs"),("merge of the end block's tail",ED+"delete_text_uc.rs")],
 None,["TextDocument::blocks: id, block_format, list"])
p("P04","Cursors and selections survive every edit, each at its own text",
 "After an edit every live cursor's position and anchor still denote the same place in the text: unchanged at or before the edit point, shifted by the net length after it, and at the end of the new content when the place itself was replaced. The editing cursor ends, without selection, right after what it inserted or where it deleted. No edit through a cursor leaves any cursor outside the document that was inside it before, and undo and redo move cursors the same way.",
 ["histories","inputs"],HW+", with any number of other cursors anywhere",
 "Tests use one or two cursors and single edits; the rule must hold for any number of cursors and selections relative to any edit, including edits made by undo, composites and lists.",
 [PA+"inner.rs",PA+"cursor.rs",PA+"document.rs"],
 [("adjust_offset over all registered cursors",PA+"inner.rs adjust_cursors"),("undo/redo text diff",PA+"document.rs emit_undo_redo_change_events")],
 [("cursors","position and anchor of every live cursor",PA+"inner.rs CursorData")],["TextCursor::position/anchor"])
p("P05","Undo and redo restore the document exactly",
 "Undoing the last step restores exactly the document before it - text, character and block formats, block ids, list membership and list attributes, title and settings - and redoing it restores exactly the document after it. This holds for any sequence of edits, undos and redos, however deep and however interleaved.",
 ["histories"],"every history of edits, undos and redos",
 "Each command keeps its own snapshot and redo path; tests undo one or two commands right after executing them, while failures need redo after other commands, merged typing, or commands that depend on ids created by earlier ones.",
 [CO+"undo_redo.rs",CO+"snapshot.rs",ED+"insert_text_uc.rs",ED+"delete_text_uc.rs",ED+"insert_fragment_uc.rs",FO+"set_text_format_uc.rs",PA+"document.rs"],
 [("per-command undo/redo with snapshots or inverse splices",ED+"*_uc.rs UndoRedoCommand impls"),("undo manager",CO+"undo_redo.rs")],
 [("undo/redo stacks","commands with their restore data",CO+"undo_redo.rs StackData")],["full projection after each undo()/redo()"])
p("P06","Undo granularity: edit blocks, typing groups, redo invalidation",
 "Everything between begin_edit_block and the matching end is one undo step, nested or not; an edit block with no edits adds no step. Consecutive typed characters (and consecutive single-character deletions) coalesce into one step only while adjacent, in the same direction, within the merge window, below the size limit and not across a word boundary. A new edit discards the redo history, can_undo and can_redo always tell whether undo and redo would do something, and clearing the history empties both.",
 ["histories"],"every history of edits, edit blocks, pauses, undos, redos and clears",
 "Grouping depends on timing, adjacency and nesting across several calls; tests check a few two-step merges.",
 [CO+"undo_redo.rs",ED+"insert_text_uc.rs",ED+"delete_text_uc.rs",PA+"cursor.rs",PA+"document.rs"],
 [("composite stack and merge on add",CO+"undo_redo.rs"),("can_merge/merge",ED+"insert_text_uc.rs"),("can_merge/merge",ED+"delete_text_uc.rs")],
 None,["can_undo/can_redo and the document after each undo"])
p("P07","Change events describe exactly what changed",
 "The events an edit, undo or redo emits are a faithful account of it: a mirror that replaces the reported removed range by the reported number of characters agrees with the document everywhere outside the reported range, every change of formatting or text lies in a reported range, block-count changes are reported once with the true count, flow insert/remove events turn the old list of top-level elements into the new one, and undo/redo availability is reported as it is.",
 ["histories","inputs"],HW,
 "Tests look for an event of a kind, rarely at its numbers; whether a layout mirror stays in sync is a property of the whole history.",
 [PA+"document.rs",PA+"cursor.rs",PA+"inner.rs",PA+"events.rs"],
 [("finish_edit",PA+"cursor.rs"),("emit_undo_redo_change_events",PA+"document.rs"),("check_flow_changed / check_block_count_changed",PA+"inner.rs")],
 [("pending_events","queued events",PA+"inner.rs")],["poll_events after each call"])
p("P08","Every event reaches every listener exactly once, in order",
 "Each event is returned by poll_events exactly once and passed exactly once to every callback subscribed when it is delivered, in the order events happened (an edit made inside a callback delivers its events there and then), and polling never steals events from callbacks or the other way round. A dropped subscription gets nothing more; a callback may call back into the document without deadlock.",
 ["histories","schedules"],"every interleaving of edits, polls, subscribes, unsubscribes and re-entrant callbacks",
 "Two consumers share a trimmed queue with two cursors; tests use one consumer at a time.",
 [PA+"inner.rs",PA+"events.rs",PA+"document.rs"],
 [("take_queued_events / drain_poll_events / trim_delivered_events",PA+"inner.rs"),("Subscription::drop",PA+"events.rs")],
 [("poll_cursor, callback_cursor","delivery progress of the two paths",PA+"inner.rs")],["poll_events; on_change callbacks"])
p("P09","All read views of a document agree",
 "At any moment every way to read the document tells the same story: plain text, block list, block/position/number lookups, text_at, positions of blocks, fragments, snapshots, flow, statistics, character count, block count, block neighbours and cursor queries are all derived from one text and structure. For any position and range the answer equals the one computed from the block list, and out-of-range requests are errors or empty, never wrong data.",
 ["histories","inputs"],"every reachable document, every position and range",
 "Block starts are cached in an offset index and converted between chars and bytes; a stale cache is visible only through a particular lookup after a particular edit.",
 [PA+"document.rs",PA+"text_block.rs",PA+"text_frame.rs",IN+"get_block_at_position_uc.rs",IN+"get_text_at_position_uc.rs",IN+"get_document_stats_uc.rs",CO+"database/block_offset_index.rs"],
 [("offset index lookups",CO+"database/block_offset_index.rs"),("position lookup",IN+"get_block_at_position_uc.rs"),("snapshots",PA+"text_frame.rs")],
 None,["all query methods of TextDocument, TextBlock, TextCursor"])
p("P10","Cursor movement lands where its operation says",
 "set_position, every move operation and every select type put the cursor exactly where they are documented to: never outside the document, never inside a grapheme cluster, with KeepAnchor keeping the anchor and MoveAnchor collapsing the selection. move_position returns true exactly when the position changed.",
 ["histories","inputs"],"every reachable document, every cursor state, every operation, mode and count",
 "Tests check ASCII words in one block; boundaries between blocks, empty blocks, clusters, word edges and counts multiply.",
 [PA+"cursor.rs",CO+"parser_tools"],
 [("resolve_move / set_position",PA+"cursor.rs"),("find_word_boundaries",PA+"cursor.rs")],None,["TextCursor::position/anchor"])
p("P11","Search finds exactly the matches",
 "find_all returns exactly the non-overlapping matches of the query from left to right under the given options, with true positions and lengths in characters; find returns the first match at or after the start position, or, backwards, the last one before it. Literal case folding, whole-word filtering and blocks separated by a newline are respected for any text.",
 ["inputs","histories"],"every reachable document, query, option set and start position",
 "Case folding and byte/char conversion bugs need particular Unicode text; the text searched is a cache that must be invalidated by every kind of edit.",
 [SE+"search_helpers.rs",SE+"find_text_uc.rs",SE+"find_all_uc.rs",PA+"document.rs"],
 [("find_all_matches",SE+"search_helpers.rs"),("plain_text_cache invalidation",PA+"inner.rs")],None,["find, find_all"])
p("P12","Replace changes exactly the matches, as one step",
 "replace_text replaces exactly the matches find_all reports (the first one or all of them) that lie within a block, leaves everything else - text, formats, block structure - as it was, returns how many it replaced, and one undo takes all of it back.",
 ["inputs","histories"],"every reachable document, query, replacement and option set",
 "Replacement shifts later matches and format runs; tests use one or two matches in unformatted ASCII.",
 [SE+"replace_text_uc.rs",SE+"search_helpers.rs"],[("right-to-left replacement with run shifting",SE+"replace_text_uc.rs")],None,["full projection before and after replace_text and undo"])
p("P13","Lists: membership, numbering and attributes are consistent",
 "create_list, insert_list, add, remove and format operations change exactly the list membership or attributes of exactly the blocks they name. A list's item count, items by index, each block's item index and the marker text always agree with each other and with document order.",
 ["histories","inputs"],HW+", any lists",
 "Item numbering is derived from positions that move with every edit; tests check a freshly created list.",
 [PA+"text_list.rs",PA+"text_block.rs",ED+"create_list_uc.rs",ED+"insert_list_uc.rs",ED+"add_block_to_list_uc.rs",ED+"remove_block_from_list_uc.rs",FO+"set_list_format_uc.rs"],
 [("sorted list blocks",PA+"text_list.rs"),("list item index",PA+"text_block.rs")],None,["TextList and TextBlock::list/list_item_index"])
p("P14","A table is always an exact grid of cells",
 "After any sequence of row/column insertions and removals, merges and splits (accepted or rejected), every grid position of a table is covered by exactly one cell, no cell leaves the grid, and rows, columns, cell lookup and snapshots agree. Each operation moves exactly the cells it must and every other cell keeps its identity, span and content; an accepted merge yields one cell covering exactly the range with the top-left cell's identity and content, an accepted split gives back one cell per requested part, and a rejected operation changes nothing.",
 ["histories","inputs"],"every sequence of table structure operations with any arguments, including undo and redo",
 "Spanning cells make each operation depend on all earlier ones; tests use a few fixed sequences.",
 [ED+"insert_table_row_uc.rs",ED+"insert_table_column_uc.rs",ED+"remove_table_row_uc.rs",ED+"remove_table_column_uc.rs",ED+"merge_table_cells_uc.rs",ED+"split_table_cell_uc.rs",PA+"text_table.rs"],
 [("cell coordinate shifting and span adjustment",ED+"insert_table_row_uc.rs"),("merge/split",ED+"merge_table_cells_uc.rs")],
 [("cells","row, column, spans per cell",CO+"entities.rs TableCell")],["TextTable::cell, rows, columns, snapshot"])
p("P15","Table undo is exact and cell edits stay in their cell",
 "Undo and redo of any table operation restore the table exactly, including cell ids, spans, texts and formats. Editing text inside a cell changes that cell's blocks only, and the text around the table is untouched by table structure operations.",
 ["histories"],"every history mixing table operations, text edits in cells, undos and redos",
 "Table operations snapshot and restore many entities at once; tests undo a single operation.",
 [ED+"insert_table_uc.rs",ED+"remove_table_uc.rs",ED+"insert_table_row_uc.rs",CO+"snapshot.rs",CO+"database/rope_helpers.rs"],
 [("snapshot restore",CO+"snapshot.rs"),("frame-aware rope splices",CO+"database/rope_helpers.rs")],None,["flow and table snapshots, cell blocks"])
p("P16","Copying a selection and inserting the fragment reproduces it",
 "The fragment taken from any selection has exactly the selected text (a paragraph break at its very end makes the block complete instead of adding text), and inserting it anywhere yields that text at that place with the copied character formats, block formats and list styles, leaving the surrounding text as for any insertion. Inserting a fragment is one undo step, and a fragment does not change when the document it came from does.",
 ["histories","inputs"],"every reachable document, every selection and every insertion point",
 "The first and last fragment blocks merge with their surroundings in many special cases; tests cover a few shapes.",
 [PA+"fragment.rs",PA+"cursor.rs",IN+"extract_fragment_uc.rs",ED+"insert_fragment_uc.rs"],
 [("extract_fragment",IN+"extract_fragment_uc.rs"),("insert_fragment",ED+"insert_fragment_uc.rs")],None,["selection(), insert_fragment(), blocks"])
p("P17","Plain text in, the same plain text out",
 "set_plain_text makes the document exactly the given lines, one block per line, in default format, and to_plain_text returns them, whatever was there before. Importing or clearing replaces the whole content, empties the undo history, and announces one document reset; the document behaves afterwards like a fresh one.",
 ["inputs","histories"],"every text, after every history",
 "Line-ending cases and leftovers of the previous content (formats, lists, tables, caches, history) need unusual text or a history.",
 [IO+"import_plain_text_uc.rs",IO+"export_plain_text_uc.rs",PA+"document.rs",CO+"database/rope_helpers.rs"],
 [("import",IO+"import_plain_text_uc.rs"),("clear_stack, cache invalidation",PA+"document.rs set_plain_text")],None,["blocks, to_plain_text, can_undo, events"])
p("P18","Markdown and HTML export and import preserve the document",
 "For documents within what a format can express, exporting and importing again gives the same blocks, text, headings, inline formats and lists; importing the export of the result changes nothing further. Special characters in text are escaped so that they come back as text.",
 ["inputs"],"every document in the supported subset (paragraphs, headings, bold, italic, strikeout, underline for HTML, flat lists)",
 "Tests compare a few fixed strings; escaping and run nesting must hold for any text and any run structure.",
 [IO+"export_markdown_uc.rs",IO+"import_markdown_uc.rs",IO+"export_html_uc.rs",IO+"import_html_uc.rs",CO+"parser_tools"],
 [("escape and run emission",IO+"export_markdown_uc.rs"),("content parser",CO+"parser_tools")],None,["projection before export and after import into another document"])
p("P19","Long operations end exactly once with one definite outcome",
 "A started long operation ends in exactly one terminal state - completed with a result, failed with its error, or cancelled - and then never changes; waiting, polling and cancelling from any thread agree on it. Progress never runs after the end, the result is the same every time it is asked for, events announce the end once and say the same as the outcome, other operations are not affected, and the document shows an import as a whole once it has completed and nothing of one that has not.",
 ["schedules"],"every interleaving of start, progress, completion, failure, cancel, wait and cleanup of several operations",
 "Worker and observers race on several shared maps; tests run one happy schedule.",
 [CO+"long_operation.rs",PA+"operation.rs"],[("status/result/cancel maps under mutexes",CO+"long_operation.rs")],
 [("status","Running, Completed, Cancelled, Failed",CO+"long_operation.rs")],["LongOperationManager API and events"])
p("P20","The undo manager keeps stacks, groups and failures straight",
 "Undo and redo act on exactly the named stack, in exact reverse order; a composite undoes its members in reverse and redoes them in order as one step, nested composites included, and cancelling a composite undoes exactly the members of the innermost open group. A command whose undo or redo fails stays where it was so it can be retried, and deleting or clearing one stack leaves the others alone.",
 ["histories","fault_sequences"],"every history of adds, composites, undos, redos, clears and deletions over several stacks, with commands that fail at any point",
 "Tests use a few fixed sequences with one stack and commands that succeed.",
 [CO+"undo_redo.rs"],[("UndoRedoManager",CO+"undo_redo.rs"),("CompositeCommand",CO+"undo_redo.rs")],
 [("stacks","undo and redo command stacks per id",CO+"undo_redo.rs")],["UndoRedoManager public API with recording commands"])
p("P21","A failed call changes nothing",
 "A call that returns an error leaves text, formats, structure, cursors, undo history and settings exactly as they were, and no call panics. This includes multi-step calls whose first step succeeded and transactions and savepoints rolled back at any depth.",
 ["inputs","fault_sequences","histories"],"every call with every invalid argument, in every reachable document; every nesting of savepoints",
 "Error paths are many and rarely exercised in a non-trivial state.",
 [PA+"cursor.rs",PA+"document.rs",CO+"database/transactions.rs",CO+"database/rope_store.rs",CO+"undo_redo.rs"],
 [("composite cancel on failure",PA+"cursor.rs"),("transactions and savepoints",CO+"database/transactions.rs")],None,["full projection before and after each failing call"])
p("P22","Incremental syntax highlighting equals highlighting from scratch",
 "After any history, the highlighting shown for every block is what the highlighter produces when run over the whole document from the first block, with each block seeing the previous block's state. Highlighting never alters the stored text or formats, exports or undo history, and removing the highlighter removes it.",
 ["histories"],"every history of edits, undo, redo, imports and rehighlight calls, with highlighters that carry state across blocks",
 "Incremental re-highlighting stops at the first block with unchanged state; tests check a few edits.",
 [PA+"highlight.rs",PA+"document.rs",PA+"cursor.rs"],[("rehighlight_from_block cascade",PA+"highlight.rs"),("merge of spans into fragments",PA+"highlight.rs")],
 [("block states and spans","cached highlighting per block",PA+"highlight.rs HighlightData")],["TextBlock::fragments/snapshot with a highlighter installed"])
p("P23","The rope and the block offset index always agree with the blocks",
 "The block offset index behaves as an ordered list of blocks with sizes: every lookup by position, id or order equals what a plain list gives after the same insertions, removals and size changes. In every reachable document the rope holds exactly the blocks' texts in order and the index locates each of them.",
 ["histories","inputs"],"every sequence of index operations; every reachable document",
 "A tree of prefix sums with rebuilds; tests check a few operations at a time.",
 [CO+"database/block_offset_index.rs",CO+"database/rope_helpers.rs",CO+"database/rope_store.rs"],[("BlockOffsetIndex",CO+"database/block_offset_index.rs"),("rope splices",CO+"database/rope_helpers.rs")],
 [("index, rope","block order and offsets; all text",CO+"database/rope_store.rs")],["BlockOffsetIndex public API; rope_store_for_test"])
p("P24","Modified flag, settings and resources are kept as set",
 "The modified flag becomes true on every edit and changes otherwise only by set_modified, which announces exactly the changes. Title, direction and wrap mode return what was last set, through undo and redo, and are not touched by anything else; resources return exactly the bytes stored under their name.",
 ["histories","inputs"],"every history of edits, settings changes, undos and resource additions",
 "Side effects of unrelated calls on these fields are only visible over histories.",
 [PA+"document.rs",PA+"inner.rs"],[("set_modified",PA+"document.rs"),("resource cache",PA+"document.rs")],None,["is_modified, title, text_direction, default_wrap_mode, resource"])
p("P25","Concurrent use from several threads is linearizable",
 "Edits, undos and reads made at the same time from several threads through their own cursors have the effect of executing them one at a time in some order consistent with each thread's order: no lost or torn edits, no cursor left at another place than its text, no deadlock, and the event stream is in that order.",
 ["schedules"],"every interleaving of several threads' edits, undos and reads",
 "Tests are single-threaded; races between reading a cursor and taking the document lock need particular schedules.",
 [PA+"cursor.rs",PA+"inner.rs",PA+"document.rs"],[("document lock then cursor lock",PA+"inner.rs"),("cursor read under the document lock",PA+"cursor.rs")],None,["final document, event order, per-call results"])
p("P26","Format runs behave as one format per byte",
 "The run operations - insert, delete, split, merge, set over a range, coalesce, image shifts - have exactly the effect of the same operation on a plain list with one format per byte, and always leave runs sorted, non-overlapping, non-empty and coalesced.",
 ["inputs","histories"],"every run list and every operation on it",
 "A handful of interval cases are tested by example.",
 [CO+"format_runs.rs",CO+"format_runs_query.rs"],[("run algebra",CO+"format_runs.rs")],None,["format_runs public functions"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
