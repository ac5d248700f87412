#!/usr/bin/env python3
"""Writes known_findings.json: open findings (below), and the repairs made in
/repo ('fixed' entries suppress nothing)."""
import json, os, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
FINDINGS = []
PROP = {  # subject of the fix -> properties
 "compose property kinds from the mix-in that was selected": "C02",
 "match equal items without a hash in diffs of simple collections": "C08 C19",
 "identify equal dict collections alike whatever their order": "C08",
 "make only one collection type when threads race for it": "C02",
 "compose missing property kinds in one thread at a time": "C02",
 "publish the json_data cache entry only when it is complete": "C01 C03",
 "insert one item into a list collection": "C06",
 "refuse list collection pops before the first item": "C06",
 "let index() of a list collection search past the end": "C06",
 "let a list collection be extended with itself": "C06",
 "check the type of coerced collection items": "C04 C06",
 "refuse to make a dict collection of anything": "C06",
 "make repr() of a JsonRecordDict work": "C06",
 "do not let a lazy value replace one that was set meanwhile": "C12",
 "convert records with explicit v1_none properties to JSON": "C07",
 "pickle sub-classes of generated collection types as what they are": "C07",
 "identify records which hold an empty collection": "C08",
 "compare items which a filter selects in part": "C08",
 "do not call compare_as functions for slots which are not set": "C08",
 "pair approximately matching items in their order": "C08",
 "let wildcard selectors address the items of dict collections": "C09 C05",
 "report missing dict keys as field selector errors": "C09",
 "post below items and collections which were just created": "C09",
 "keep the parts of multi-field selectors in order": "C09",
 "patch the fields of all items of a collection": "C09",
 "compose property kinds from declared ones only": "C02",
 "read attributes once in FieldSelector.get": "C12 C09",
 "let field selectors address the properties of list collections": "C09 C10",
 "keep None values in multi-field selections": "C09",
 "let unset v1 properties be set to their empty value": "C09",
 "let multi-field selectors select from JSON dict collections": "C09",
 "look up single items in multi-field selectors with wildcards": "C08 C09",
 "apply visitor filters to the items of scalar collections": "C10",
 "number the items when a mapping is converted to a list": "C10",
 "identify slots of several types by the value's own type": "C08",
 "cast to records without selected properties": "C10",
 "post below v1 properties which are not set": "C09",
 "make AutoJsonRecords keep, change, copy and convert their values": "C07",
 "report items replaced by items of another type as modified": "C08",
 "do not visit what is below a record slot that reads as None": "C10",
 "visits and casts with apply_empty_slots fail below empty slots": "C10",
 "an interrupted declaration of a property kind cannot be repeated": "C03",
 "the error for a value that cannot be visited fails itself": "C10",
 "computed defaults depend on the order of a set": "C19",
 "empty placeholders refuse what types inherit": "C20",
 "unknown JSON keys are kept in the order of a set": "C19",
 "to_json leaves out values whose conversion fails": "C07",
 "a datetime with a fraction of a second does not survive JSON": "C07",
 "iterating over an empty placeholder never ends": "C20",
 "the '0' accessor of a property replaces declared properties": "C04 C20",
}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse",
                      "--format=%h%x00%s%x00%b%x01"], capture_output=True,
                     text=True).stdout
fixed = []
for e in log.split("\1"):
    if "\0" not in e:
        continue
    h, s, b = e.strip("\n").split("\0")
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    for p in PROP[s].split():
        fixed.append("fixed: property=%s %s %s. %s" % (
            p, h, s, " ".join(b.split())))
json.dump({"findings": FINDINGS, "fixed": fixed},
          open(os.path.join(HERE, "known_findings.json"), "w"), indent=1)
