#!/usr/bin/env python3
"""Writes known_findings.json: the repaired defects, by the commit that repairs them. No finding is left open."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
what = {
 "fix: never reuse the identifier of an open context": ("D05", "opening a database after another context was closed gave the identifier of a context still open, which then showed the other database"),
 "fix: replace the database in one step when committing": ("D04", "a crash between removing the old file and renaming the new one left no database"),
 "fix: copy all the existing data when committing": ("D01", "committing on a database whose data is longer than one chunk lost the rest of the data, or shifted it"),
 "fix: a commit no longer repeats the content of the previous one": ("D02", "a second commit by the same context wrote the contents of the first one again"),
 "fix: refuse to build an hashtree out of zero blocks": ("H02", "building a hash tree out of zero blocks crashed; so did a commit with nothing pending"),
 "fix: keep the context usable when a commit fails": ("D04", "after an I/O error in a commit the context pointed to a closed or moved file and to keys that are not there"),
 "fix: refuse to commit a context on a database that changed since": ("D08", "a commit by a context opened before another commit silently removed the other commit"),
 "fix: refuse to open a database that cannot be read": ("D06", "opening a file shorter than its header says, or with a huge length, crashed or gave an empty database"),
 "fix: return an error when reading a pointer outside the database": ("D06", "reading a pointer past the end gave zeros or crashed"),
 "fix: return an error when decoding malformed bytes": ("C04", "decoders crashed, or allocated without bound, on truncated or altered bytes"),
 "fix: order each data block once": ("H03", "ordering the blocks of a tree with repeated blocks gave them too often"),
 "fix: do not write in the blocks received to build an hashtree": ("H02", "padding a tree wrote in the caller's slice of blocks"),
 "fix: keep the replaced database locked until the commit is completed": ("D08", "between the replacement and the end of a commit another application could open or commit on the replaced file"),
 "fix: read the reference and the content of a database from the same file": ("D08", "opening while another application committed mixed the index of one state with the contents of another"),
 "fix: report that the existence of a database could not be verified": ("D07", "when the file of a database could not be looked up, the database was reported as absent, without an error"),
 "fix: creating a database never replaces an existing one": ("D07", "two creations at the same time could truncate a database"),
 "fix: a compose matches the data of each of its occurences": ("A06", "a compose with occurences above one matched its bytes once only"),
 "fix: the data that follows an external token is no longer lost": ("A05", "the data after an external, and its suffix, were dropped"),
 "fix: a token can be used recursively more than once": ("A02", "a token used recursively twice in a line was not found the second time"),
 "fix: everything stops at any line of its exception and handles each escaped exception": ("A04", "an everything only looked at the first alternative of its exception, and only handled one escaped exception"),
 "fix: several elements of a line can have the same name": ("A02", "a line with the same element twice was successful with one of them missing"),
 "fix: the bytes of a content include its channels when requested": ("A01", "the bytes of a tree with channels left out the channels of nested contents"),
 "fix: skip the escapes of a channel as well": ("A03", "a channel with an everything that has an escape put the escape back in the data"),
 "fix: a grammar without test suites covers nothing": ("A08", "computing what is covered crashed for a grammar without suites"),
 "fix: the covered elements are identified by their position in the grammar": ("A08", "covered elements were numbered by their position in the tree, not in the grammar"),
 "fix: return an error when a query has no content for its func": ("Q02", "a query whose selection is empty crashed"),
 "fix: a query skips the elements that have no grammar": ("Q01", "a query over a line made by an everything crashed"),
 "fix: the components accept characters of more than one byte": ("G03", "components built of multi-byte characters matched other bytes and failed their own suites"),
 "fix: a value of a script is a number that ends with its instruction": ("G02", "a value took the whole rest of the script, whatever it was, so that every first instruction was read as a value and the others disappeared"),
 "fix: skip the comments that are empty": ("G01", "an empty comment was not skipped"),
 "fix: forget a context even if closing it fails": ("D09", "a context whose closing failed could neither be closed nor its database opened again"),
 "fix: close the backup when copying in it fails": ("D09", "a commit that failed while copying the backup left the backup file open for ever"),
 "fix: a commit does not fail when closing the previous connection does": ("D09", "a commit whose last step, closing the file it replaced, failed left the new file open and its context unusable although the commit was made"),
 "fix: flush a commit to the disk, a power failure could leave an empty database": ("D10", "nothing was flushed before the new file replaced the database: a power failure after it left a database with holes or nothing in it, and lost commits that had succeeded"),
}
exec(open(os.path.join(here, "tools", "fixed_extra.py")).read()) if os.path.exists(os.path.join(here, "tools", "fixed_extra.py")) else None
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h\t%s"], capture_output=True, text=True).stdout
fixed = []
for line in log.splitlines():
    h, s = line.split("\t", 1)
    if not s.startswith("fix:"):
        continue
    id, text = what.pop(s)
    fixed.append(f"fixed: property={id} {h} {text}")
assert not what, what
path = os.path.join(here, "known_findings.json")
old = json.load(open(path)) if os.path.exists(path) else {"findings": []}
json.dump({"findings": old["findings"], "fixed": fixed}, open(path, "w"), indent=1)
open(path, "a").write("\n")
print(len(fixed), "fixed")
