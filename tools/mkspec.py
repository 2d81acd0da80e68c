#!/usr/bin/env python3
"""Writes spec/sim.json: the API description whose generated clients are simulated."""
import json, os

def ref(n): return {"$ref": "#/components/schemas/" + n}
STR = {"type": "string"}
def integer(fmt, **kw): return dict({"type": "integer", "format": fmt}, **kw)
def arr(s): return {"type": "array", "items": s}
def js(schema, desc="ok"): return {"description": desc, "content": {"application/json": {"schema": schema}}}
NONE = {"description": "nothing"}
RAW = {"description": "raw", "content": {"*/*": {"schema": {}}}}
def P(n, schema=STR): return {"in": "path", "name": n, "required": True, "schema": schema}
def Q(n, schema=STR, req=False, **kw): return dict({"in": "query", "name": n, "required": req, "schema": schema}, **kw)
def H(n, schema=STR, req=False): return {"in": "header", "name": n, "required": req, "schema": schema}
XOP = H("x-op", STR, True)
def body(ct, schema, req=True): return {"required": req, "content": {ct: {"schema": schema}}}
BIN = {"type": "string", "format": "binary"}
E4 = js(ref("ThingError"), "error")

paths = {}
def op(method, path, oid, params, responses, tag="things", rb=None, **ext):
    o = {"operationId": oid, "tags": [tag], "parameters": params + [XOP], "responses": responses}
    if rb: o["requestBody"] = rb
    o.update({k.replace("_", "-"): v for k, v in ext.items()})
    paths.setdefault(path, {})[method] = o

T = ref("Thing")
op("get", "/things/{id}", "thing_get", [P("id")], {"200": js(T), "4XX": E4, "5XX": E4})
op("post", "/things", "thing_create", [], {"201": js(T), "4XX": E4, "5XX": E4}, rb=body("application/json", T))
op("put", "/v1/{project}/things/{id}/parts/{part_no}", "thing_put",
   [P("project"), P("id", ref("Name")), P("part_no", integer("uint32"))],
   {"2XX": js(T), "default": E4}, rb=body("application/json", ref("Thing")))
op("patch", "/things/{id}", "thing_patch", [P("id", {"type": "string", "format": "uuid"})],
   {"2XX": js(ref("Patch")), "404": E4, "409": E4}, rb=body("application/json", ref("Patch")))
op("delete", "/things/{id}", "thing_delete", [P("id")], {"204": NONE, "4XX": E4, "5XX": E4})
op("head", "/things/{id}", "thing_head", [P("id")], {"200": NONE, "404": NONE})
op("get", "/things", "thing_list",
   [Q("limit", integer("uint32", minimum=1)), Q("page_token"), Q("filter"), Q("sort", ref("Kind"))],
   {"200": js(ref("ThingPage")), "4XX": E4, "5XX": E4}, x_dropshot_pagination={"required": []})
op("get", "/projects/{project}/things/{kind}", "proj_list",
   [P("project"), P("kind", ref("Kind")), Q("limit", integer("uint32", minimum=1)), Q("page_token"),
    Q("selector"), H("x-scope")],
   {"200": js(ref("ThingPage")), "4XX": E4, "5XX": E4}, tag="projects",
   x_dropshot_pagination={"required": ["selector"]})
op("get", "/raw/{name}", "raw_get", [P("name")], {"200": RAW, "206": RAW, "4XX": RAW}, tag="raw")
op("get", "/rawdef", "raw_default", [Q("q")], {"default": RAW}, tag="raw")
op("put", "/up/octet/{name}", "upload_octet", [P("name")], {"204": NONE, "4XX": E4}, tag="raw",
   rb=body("application/octet-stream", BIN))
op("put", "/up/text", "upload_text", [Q("mode")], {"200": js(STR), "4XX": E4}, tag="raw", rb=body("text/plain", STR))
op("post", "/up/md", "upload_md", [], {"2XX": js(integer("uint64")), "default": E4}, tag="raw",
   rb=body("text/x-markdown", STR))
op("post", "/form", "form_post", [], {"200": js(T), "4XX": E4}, tag="raw",
   rb=body("application/x-www-form-urlencoded", ref("Form")))
op("get", "/search/{when}", "search",
   [P("when", {"type": "string", "format": "date-time"}),
    Q("q", STR, True), Q("n", integer("int64")), Q("u", integer("uint64")), Q("f", {"type": "number"}),
    Q("b", {"type": "boolean"}), Q("kind", ref("Kind")), Q("kinds", arr(ref("Kind"))),
    Q("tag[]", arr(STR)), Q("nums", arr(integer("int32")), True), Q("id", {"type": "string", "format": "uuid"}),
    Q("name", ref("Name")), Q("type", STR), Q("a b&c=d", STR), Q("self"), Q("url"), Q("request"), Q("client"),
    H("x-text"), H("x-num", integer("int32")), H("x-kind", ref("Kind"))],
   {"200": js(arr(T)), "4XX": E4}, tag="search")
op("get", "/ws/{id}", "channel", [P("id"), Q("mode")], {"default": {"description": "", "content": {"*/*": {"schema": {}}}}},
   tag="raw", x_dropshot_websocket={})
op("get", "/wst/{id}", "channel_typed", [P("id")], {"200": {"description": "", "content": {"*/*": {"schema": {}}}}, "4XX": E4},
   tag="raw", x_dropshot_websocket={})
op("post", "/nothing/{a}-{b}.x", "do_nothing", [P("a"), P("b")], {"2XX": NONE, "default": E4}, tag="search")
op("get", "/onlyerr", "only_errors", [], {"404": E4}, tag="search")
op("get", "/opt", "opt_json", [], {"200": js({"type": "object", "nullable": True, "properties": {"a": STR}, "required": ["a"], "title": "Opt"}), "5XX": NONE}, tag="search")
op("get", "/scalar", "scalar_json", [], {"2XX": js(integer("int64")), "default": js(STR)}, tag="search")
op("get", "/any", "any_json", [], {"default": js(ref("Any"))}, tag="search")
op("get", "/map", "map_json", [], {"203": js({"type": "object", "additionalProperties": integer("int64")}), "418": js(arr(STR))}, tag="search")
op("get", "/", "root_get", [], {"200": NONE, "5XX": RAW}, tag="search")

schemas = {
    "Thing": {"type": "object", "description": "A thing",
              "required": ["id", "name", "kind", "tags"],
              "properties": {"id": integer("uint64"), "name": STR, "kind": ref("Kind"), "tags": arr(STR),
                             "note": STR, "inner": ref("Inner"), "weight": {"type": "number", "format": "double"},
                             "made": {"type": "string", "format": "date-time"},
                             "type": {"type": "integer", "format": "int32"}}},
    "Inner": {"type": "object", "required": ["a"],
              "properties": {"a": integer("int32"), "b": {"type": "boolean"}, "more": arr(ref("Inner"))}},
    "Kind": {"type": "string", "enum": ["alpha", "be ta", "ga/mma"]},
    "Name": {"type": "string", "minLength": 1, "maxLength": 63},
    "ThingError": {"type": "object", "required": ["code", "message"],
                   "properties": {"code": integer("int32"), "message": STR}},
    "ThingPage": {"type": "object", "required": ["items"],
                  "properties": {"items": arr(ref("Thing")), "next_page": {"type": "string", "nullable": True}}},
    "Patch": {"type": "object", "properties": {"name": STR, "level": integer("int64"), "on": {"type": "boolean"}}},
    "Form": {"type": "object", "required": ["a", "count"],
             "properties": {"a": STR, "count": integer("uint32"), "flag": {"type": "boolean"}, "kind": ref("Kind"),
                            "odd name&=": STR}},
    "Any": {},
}
spec = {"openapi": "3.0.3",
        "info": {"title": "Simulated service", "description": "Everything a generated client can do", "version": "1.4.2-sim"},
        "tags": [{"name": "things", "description": "Things"}, {"name": "raw"}, {"name": "search"}],
        "paths": paths, "components": {"schemas": schemas}}
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec")
json.dump(spec, open(os.path.join(here, "sim.json"), "w"), indent=1)

# Positional only: object-valued query parameters (the builder style has no way to pass them).
paths = {}
op("get", "/objq", "obj_query", [Q("filter", ref("Patch"), True), Q("m", {"type": "object", "additionalProperties": STR}, True),
    Q("zz", STR)], {"200": js(STR)})
spec2 = dict(spec, paths=dict(spec["paths"], **paths))
json.dump(spec2, open(os.path.join(here, "sim_positional.json"), "w"), indent=1)

# Command line: array-valued query parameters have no generated form (see DESIGN.md).
cli_paths = {k: v for k, v in spec["paths"].items() if not k.startswith("/search")}
json.dump(dict(spec, paths=cli_paths), open(os.path.join(here, "sim_cli.json"), "w"), indent=1)
