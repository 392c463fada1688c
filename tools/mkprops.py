#!/usr/bin/env python3
"""writes /verif/properties.jsonl (single place to edit the property texts)"""
import json, os
P = []
B = 'pyopenapi/'
M = B + 'migration/'
V = M + 'versions/'
C20 = V + 'v2_0/scanner/upgrade/converters.py'

def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=list(files),
                          state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                          mechanism=[dict(name=a, where=b) for a, b in mech],
                          observe_at=list(observe), hook_needed=None))
    assert len(title) <= 80, title
    P.append(d)

p('C01', 'JSON pointers and references are encoded, split and joined losslessly',
  'Splitting a JSON pointer that was composed onto a root from any list of names gives back that root and exactly those names, whatever characters they contain, and composing changes neither the base nor the given names. '
  'Splitting a JSON reference gives its absolute document address and its pointer, so that joining them again designates the same location, and doing so twice changes nothing. '
  'Local file paths, absolute or relative, become absolute file addresses with special characters percent-encoded, while addresses that are already absolute are kept.',
  ['inputs'], 'every list of names (empty names, slash, tilde, percent, hash, digits, unicode), every base, every reference with or without document part and fragment',
  'tests check a dozen literal strings; interactions of the escapes (e.g. "~1" inside a name) and of base/fragment/path forms need all combinations.',
  [B+'utils.py'], [('pointer codec', B+'utils.py:jp_compose/jp_split'), ('reference split and address normalisation', B+'utils.py:jr_split/normalize_url/path2url')])

p('C02', 'Relative references are resolved against the document that contains them',
  'A reference without a document part designates the containing document; a relative one designates the file reached from the folder of the containing document with "." and ".." removed; one starting with a slash is taken from the root of the same host; an absolute one is left alone, and the fragment is always carried over unchanged. '
  'Resolving an already resolved reference again, against any document, changes nothing. '
  'Taking the folder of a document address, and joining a name to a folder, give an address in that folder with exactly one slash between folder and name.',
  ['inputs'], 'every reference form against every base address (root-level, nested, with host or file scheme), every nesting of dot segments',
  'tests check a handful of literal pairs; depth of "..", root-level documents, absolute paths and fragments combine freely.',
  [B+'utils.py'], [('normalisation', B+'utils.py:normalize_jr/derelativise_url'), ('folder and join', B+'utils.py:url_dirname/url_join')])

p('C03', 'Loading a document and dumping it back loses and invents nothing',
  'For documents of version 1.2, 2.0 and 3.0.0, the loaded object tree dumps back to the source document: every field the version defines keeps its name, place and value, including false, zero, empty-string and free-form values; only null values, empty collections that a definition object holds directly, and names the version does not define are left out, and nothing is added. '
  'Every part of the tree has the type the version defines for that position (a reference object exactly where a reference is allowed and "$ref" is present). '
  'Values are readable by the name used in the document and by its snake-case alias, and absent ones read as their defined default.',
  ['inputs'], 'every document of the three versions, every combination of present/absent fields, names and nesting',
  'fixtures exercise a few dozen shapes; the field/child/alias tables of ~60 object types are only partially touched.',
  [M+'spec/obj.py', V+'v1_2/objects.py', V+'v2_0/objects.py', V+'v3_0_0/objects.py'],
  [('field, child, rename factories', M+'spec/obj.py:field/child/rename'), ('containers', M+'spec/obj.py:_Map/_List'), ('dump', M+'spec/obj.py:dump')])

p('C04', 'Every part of a loaded tree is addressable by its own JSON pointer',
  'In a loaded tree each object reports the JSON pointer of its position in the source document as its path and the object or collection holding it as its parent; following that pointer from the root yields that very object. '
  'The enumeration of the children of any object names exactly the nearest objects below it, each once, by their escaped relative pointer. '
  'Following a pointer to a value or element yields it, and following one to something that does not exist never yields something else.',
  ['inputs'], 'every document and every position in it, including names that need escaping and lists of more than ten elements',
  'tests resolve a few fixed pointers; coherence among path, parent, children and resolution must hold at every node of every document.',
  [M+'spec/obj.py'], [('path/parent bookkeeping', M+'spec/obj.py:_Base'), ('resolve', M+'spec/obj.py:resolve'), ('children enumeration', M+'spec/obj.py:get_children')])

p('C05', 'Children enumeration stays coherent while a tree is modified',
  'After any sequence of attaching, replacing or merging children, setting map entries and appending to lists, interleaved with enumerations at any level, every enumeration shows exactly the current objects under their current names. '
  'Merging children from another object only fills positions that are empty, never overwrites, and leaves the source as it was. '
  'Objects attached, assigned, set or appended report the object or collection they were placed into as parent (merged ones keep the one they have), and the dump shows the modified content.',
  ['histories'], 'every history of modifications and observations over nested objects, maps and lists',
  'the enumeration is cached at every level; tests perform at most one modification after one enumeration.',
  [M+'spec/obj.py'], [('cache invalidation', M+'spec/obj.py:invalidate_children_cache'), ('modification', M+'spec/obj.py:attach_child/merge_children/__setitem__/append/extend')],
  state=[('children cache', 'cached enumeration per node', M+'spec/obj.py:children_cache')])

p('C06', 'Comparing two object trees finds a difference exactly when there is one',
  'Comparing two trees reports "same" exactly when they have the same type and every defined field and child, at any depth, has the same value or the same default. '
  'When they differ, the reported location is a JSON pointer, starting from the given base, of a place where they really differ. '
  'The verdict does not depend on which of the two is asked, nor on the order of keys.',
  ['inputs'], 'every pair of trees: equal, differing in one deep place, in length, in keys, or in type',
  'tests compare small literal trees; an element or key skipped by the walk is only visible for particular pairs.',
  [M+'spec/obj.py'], [('compare', M+'spec/obj.py:compare')])

p('C07', 'Comparing raw containers reports exactly the places that differ',
  'Comparing two nested structures of dicts and lists reports nothing exactly when they are equal, where lists of primitive values are compared regardless of order and lists of dicts by position; excluded keys are ignored at every level, and with included keys only those are looked at. '
  'Otherwise each differing place is reported once with its JSON pointer: a missing or additional key, two different list lengths, two different types, or two different values from first and second argument in that order.',
  ['inputs'], 'every pair of nested containers of strings, integers, dicts and lists, every include/exclude selection',
  'tests cover a few literal pairs.',
  [B+'utils.py'], [('compare_container', B+'utils.py:compare_container')])

p('C08', 'The object store returns the right object for an address and version',
  'Looking up an address yields the object last stored for exactly that document, version and pointer, or the part of the closest enclosing stored object that the pointer designates, and nothing if there is no enclosing one; pointers are matched name by name, so a name never matches a longer name it is a prefix of. '
  'Collecting everything below a pointer returns exactly the objects of that version stored there, keyed by the remaining pointer, and removes them from the store if and only if asked to. '
  'Searching across versions returns the object of the newest version not above the limit, under the pointer it has in that version.',
  ['histories'], 'every history of store, lookup, collect (with and without removal) over several documents, versions and nested pointers',
  'tests store three or four literal pointers; prefix-sharing names, nested entries, overwriting and removal interact through the history.',
  [M+'store.py'], [('lookup', M+'store.py:get/get_under/get_until')], state=[('cache', '(url, pointer, version) -> object', M+'store.py:__spec_objs')])

p('C09', 'Pointers written for an older version are relocated to the right place',
  'Relocating a pointer from one version to another applies, for every version after the first up to and including the second and in that order, the recorded relocation with the longest matching sequence of whole names, keeping the rest of the pointer; pointers without a matching relocation stay unchanged. '
  'Relative targets are placed under the location the nested relocation belongs to and absolute targets replace it. '
  'Relocations recorded for one document never affect another document.',
  ['histories', 'inputs'], 'every set of (nested) relocations over several versions and documents, every pointer including names that are prefixes of one another or need escaping',
  'tests use two or three routes; longest-match and whole-name matching need competing routes.',
  [M+'store.py'], [('relocation', M+'store.py:relocate/_patch_jp'), ('routes', M+'store.py:update_routes')], state=[('routes', 'per document and version', M+'store.py:__routes')])

p('C10', 'Every reference in a loaded API resolves to the object it designates',
  'After a 2.0 document is upgraded to 2.0 or 3.0.0, or a 3.0.0 document is loaded, every reference object, in whatever document it appears, is linked to the object its absolute address designates: the same content, the correct type, and for targets in an already loaded document the very object in that tree. '
  'In a document upgraded to 3.0.0 every written reference designates the place its target moved to. '
  'A reference that designates nothing makes the load fail instead of being skipped or linked to something else.',
  ['inputs', 'configurations'], 'every graph of documents and references: same document, relative, parent folder, absolute, whole-file, chains, mutual references, escaped names, names that are prefixes of one another',
  'fixtures have two small multi-file projects; wrong links need particular name or document layouts.',
  [M+'base.py', M+'resolve.py', V+'v2_0/scanner/resolve.py', V+'v2_0/scanner/norm_ref.py', V+'v3_0_0/scanner/resolve.py', V+'v3_0_0/scanner/norm_ref.py', V+'v3_0_0/main.py'],
  [('resolution', M+'base.py:resolve_obj/load_obj'), ('normalisation scan', V+'v2_0/scanner/norm_ref.py'), ('linking scan', V+'v2_0/scanner/resolve.py')])

p('C11', 'Cyclic references neither hang nor corrupt loading, and are detected',
  'Loading documents whose references form cycles, within one document or across several, terminates with every reference linked to its target. '
  'Following a chain of references to its end yields the last object of the chain if the chain ends, and raises the cycle error if and only if the chain returns to an object already passed.',
  ['inputs', 'configurations'], 'every shape of reference chain and cycle (self, two-step, long, entered from outside, across documents)',
  'tests contain a couple of literal cycles.',
  [B+'utils.py', M+'base.py', V+'comm.py'], [('cycle guard', B+'utils.py:CycleGuard/deref'), ('store before resolve', V+'v2_0/main.py:upgrade')])

p('C12', 'A path item with a reference is merged with what it references',
  'For a path item with a reference, the merged path item has for each method, and for the shared parameters, the one of the first path item in the reference chain that defines it, starting with the referring one. '
  'The chain may span documents and may be cyclic, in which case merging stops at the first repeated path item; all path items of the chain keep their own content unmodified. '
  'A path item without reference is its own final form.',
  ['inputs', 'configurations'], 'every chain of path items and every distribution of methods over it, in 2.0 and 3.0.0 documents, in one or several documents',
  'fixtures have one short chain.',
  [V+'comm.py', V+'v2_0/scanner/merge.py', V+'v3_0_0/scanner/merge.py', M+'spec/obj.py', B+'utils.py'],
  [('merge', V+'comm.py:_merge_path_item'), ('final', B+'utils.py:final')])

p('C13', 'Each document is fetched once, from the right place, and failures surface',
  'While an API is loaded, upgraded and its references are resolved in any order, every document is fetched at most once and only when something refers to it; references into it are then answered from that copy. '
  'The loader is given the address after applying the redirect hook while identity and relative references stay based on the original address; local addresses are read from disk, trying the well-known file names in a folder and the json/yaml extensions for an extension-less path. '
  'A document that cannot be found, is empty or is malformed makes the load fail, and a failed fetch is retried on the next request. Loading an address again in the same session gives the object that is already there, and nothing is fetched.',
  ['histories', 'fault_sequences'], 'every sequence of requests over several documents, every placement of failures, every file layout',
  'tests check single loads with a fixed layout; nothing counts fetches or injects failures.',
  [M+'resolve.py', M+'getter.py', M+'base.py', B+'utils.py'], [('document cache', M+'resolve.py:resolve'), ('getters', M+'getter.py'), ('extension handling', B+'utils.py:patch_path')],
  state=[('document cache', 'url -> raw document', M+'resolve.py:__cache')])

p('C14', 'Upgrading Swagger 1.2 to 2.0 carries over the described API',
  'Upgrading a 1.2 resource listing with its resources to 2.0 produces, for every operation, the same method under base path plus path with its tags, identifiers, texts, mime types (own ones before those of the resource), security (own before resource), converted parameters and result schema; and for every model a definition under its resource scope with its properties, with sub-types inheriting from it. '
  'References to models become references to exactly those definitions; limits, formats, defaults, enumerations, collections and uniqueness are converted without loss, also when zero, false or empty. '
  'Info, authorizations and one host for all resources are carried over, optional parts may be missing, and resources with different hosts are refused.',
  ['inputs'], 'every 1.2 document set: several resources, models with the same name in different resources, every parameter kind and data type, every missing optional part',
  'fixtures cover one sample service.',
  [V+'v1_2/scanner/upgrade.py', V+'v1_2/objects.py', V+'v2_0/main.py', M+'base.py'], [('upgrade', V+'v1_2/scanner/upgrade.py')])

p('C15', 'Upgrading 2.0 parameters to 3.0.0 keeps how a request is made',
  'Upgrading an operation to 3.0.0 keeps every query, path, header parameter in order with name, place, texts, required/empty flags, schema constraints, and a style and explode setting that mean the same as its collection format; references to such parameters are kept. '
  'Body, form and file parameters, written in the operation, shared by the path item or referenced, together become one request body of that operation: required if any of them is, offered under the mime types consumed by the operation (else by the document, else the default for the kind) that the kind of parameter permits, with the body schema itself or one property per form field, its required list and its encoding. '
  'Two bodies or two form fields with the same name are refused, and operations sharing path-level parameters do not influence each other.',
  ['inputs'], 'every combination of parameter kinds, places, references, collection formats and consumes lists over operation, path item and document',
  'tests convert single fragments; combinations of shared, referenced and own parameters with mime-type selection are not sampled.',
  [C20, V+'v2_0/scanner/upgrade/parameter_context.py', V+'v2_0/scanner/upgrade/constants.py'],
  [('from_parameter', C20+':from_parameter'), ('to_request_body', C20+':to_request_body'), ('mime types', V+'v2_0/scanner/upgrade/parameter_context.py'), ('to_path_item', C20+':to_path_item')])

p('C16', 'Upgrading 2.0 to 3.0.0 preserves schemas, responses, security and metadata',
  'Upgrading a 2.0 document to 3.0.0 keeps every schema at any nesting with all its constraints (also when zero, false or empty), required list, composition, properties, additional-properties setting, discriminator, xml and documentation; every response with its description, headers and its schema under each produced mime type (own before document, else a default); and every operation, tag, info, license, contact and external documentation text. '
  'Security requirements are kept, including the empty list of an operation that disables security, and security schemes become the equivalent 3.0.0 schemes with their flow, addresses and scopes. '
  'Host, base path and schemes become the equivalent server address, definitions move to the components of the same name, and nothing is moved between or shared among operations.',
  ['inputs'], 'every 2.0 document: all schema shapes, response/produces combinations, security definitions, server settings',
  'tests convert single fragments and a sample service.',
  [C20, V+'v2_0/scanner/upgrade/constants.py', V+'v3_0_0/main.py'],
  [('to_schema', C20+':to_schema'), ('to_response/to_header', C20+':to_response'), ('to_security_scheme', C20+':to_security_scheme'), ('to_openapi', C20+':to_openapi')])

p('C17', 'Upgrading is pure, deterministic and the same in one step or several',
  'Upgrading never modifies the loaded source document nor the older-version tree obtained before, and the upgraded tree shares no mutable part with them. '
  'Upgrading the same document again, in a fresh session, through intermediate versions or with keys in another order gives an equal result, and upgrading a document already at the target version changes nothing in it except making references to other documents absolute. '
  'The session reports the original and reached version, upgrades only to supported versions not older than the document, refuses unknown ones, and hands every upgraded object to the application hook exactly once for each version step it is taken through, using the object the hook returns.',
  ['histories', 'inputs'], 'every sequence of upgrades to supported and unsupported versions over every document',
  'tests upgrade each fixture once, directly.',
  [M+'base.py', V+'v2_0/main.py', V+'v3_0_0/main.py', V+'v1_2/main.py', C20], [('migrate_obj', M+'base.py:migrate_obj'), ('load_obj', M+'base.py:load_obj'), ('supported versions', B+'utils.py:get_supported_versions')])

p('C18', 'Scanning visits every object once and calls exactly the handlers registered',
  'Scanning a tree visits every object of it exactly once, with its JSON pointer from the root, except objects below one whose own type is declared as leaf. '
  'For each visited object, and each scanner in the given order, exactly the handlers that scanner registered for the type are called in registration order with pointer and object (the application-bound scan also calls those registered for its base types), and each returned value is handed once to that scanner\'s result function if it has one. '
  'Registrations of one scanner class never leak into another.',
  ['inputs', 'configurations'], 'every tree, every set of scanners with any registrations, leaves and result functions',
  'tests scan one tree with a few handlers.',
  [M+'scan.py'], [('traversal', M+'scan.py:default_tree_traversal'), ('dispatch', M+'scan.py:Dispatcher/_handle_cls')])

p('C19', 'Scoped names are found by any unambiguous trailing part',
  'Composing and splitting scopes are inverse for names without the separator. '
  'Looking up a scoped dictionary with a full key yields its value; with a trailing part made of complete names it yields the value of the only key ending with it, raises an ambiguity error if several do, and a key error if none does. '
  'The separator in use is the one configured for that dictionary.',
  ['inputs'], 'every set of scoped keys and every lookup by string or tuple, any separator',
  'tests use eight keys.',
  [B+'utils.py'], [('scope helpers', B+'utils.py:scope_compose/scope_split/ScopeDict')])

p('C20', 'YAML and JSON forms of a document load to the same API',
  'A document given as YAML, in block or flow style (a text which starts with "{" is read as JSON), loads to the same objects as the same document given as JSON, also when response codes are written as plain numbers. '
  'The same holds for text or bytes, for documents given as Python dicts, for referenced documents, and for everything obtained by upgrading them. ',
  ['inputs', 'configurations'], 'every document, every style of writing it and every mix of formats among referenced documents',
  'one pair of fixtures is compared.',
  [M+'getter.py', V+'v2_0/scanner/yaml.py', V+'v2_0/main.py'], [('format detection', M+'getter.py:__next__'), ('response code fix', V+'v2_0/scanner/yaml.py')])

p('C21', 'Field rules: required, default, restricted, read-only, alias, and overrides',
  'For any object type built from the specification classes, reading a present field yields its document value, an absent one its default, an absent required one or a present restricted one raises, and writing works exactly for fields declared writable and is then visible under every alias and in the dump. '
  'Types inherit field, child and internal declarations from their bases and may redefine them without affecting the bases. '
  'An object prepared for a position, at any depth, is used in that position as it is instead of being built again, and internal values and attribute groups never appear in the dump.',
  ['programs', 'inputs', 'histories'], 'every declaration of object types and every history of reads and writes',
  'tests declare a few types.',
  [M+'spec/obj.py', M+'spec/attr.py'], [('metaclass', M+'spec/obj.py:FieldMeta'), ('overrides', M+'spec/obj.py:_Base.__init__/child'), ('attribute groups', M+'spec/attr.py')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for d in P:
        d['statement'] = d['statement'].strip()
        f.write(json.dumps(d) + '\n')
print(len(P))
