#!/usr/bin/env python3
"""Writes properties.jsonl (single source of the property texts)."""
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":list(over),"text":text},"why_tests_cant":why,
      "anchors":{"files":list(files),"state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],
        "mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":list(observe),"hook_needed":None}})
TESTS="The 13 stable tests print results of a few well-formed documents and contain no assertion; "
p("C01","Decoding arbitrary bytes never panics",
 "For every byte sequence and every option, decoding JSON, MsgPack, BSON or YAML, into a new value or into an existing one, returns normally with a value or an error and never panics (no index or slice out of range, no nil dereference, no failed type assertion). Rendering the returned error as text never panics either. Exhaustion of memory or stack by extremely deep nesting is outside this property.",
 ["inputs"],"all byte sequences, all four formats, cached or not, shared or copied, new value or load in place",
 TESTS+"no malformed, truncated or random input is ever decoded.",
 ["jsonparse.go","msgpackparse.go","msgpack_value.go","bson_parse.go","yamlparse.go","cache.go"],
 [("length checks before every index/slice of the input","parseJson*, parseMsgPack*, parseBson*, parseLine/parseArray/parseObject"),("clamped error excerpt","jsonparse.go (*ErrorParseJson).Error")],
 observe=["NewValueFromJson/MsgPack/Bson/Yaml","LoadFromJson/MsgPack/Bson/Yaml","Unmarshal"])
p("C02","Decoding arbitrary bytes always terminates",
 "For every byte sequence, every loop executed while decoding makes progress on every iteration (it consumes input or moves a counter towards a fixed bound), and every nested decode works on strictly less input than the decode that started it. No document, however malformed, makes a decoder run forever.",
 ["inputs"],"all byte sequences and all four formats",
 TESTS+"a hang needs a particular malformed tail or length field that none of the sampled documents has.",
 ["jsonparse.go","msgpackparse.go","bson_parse.go","yamlparse.go","dxvalue.go"],
 [("tail slices shrink each iteration","parseJsonObj, parseJsonArray, parseMsgPack*"),("line cursor advances","yamlparse.go (*yamlParser).parse"),("offset advances by type and key bytes","parseBsonDocument, parseBsonArray")],
 observe=["NewValueFrom*","LoadFrom*"])
p("C03","Reading, editing, merging and encoding a value never panic",
 "For every value tree that a program can build through the API (including nil children, short or empty binary payloads and values left behind by a failed load) and for every key, path and index, including negative and out-of-range ones, the getters, setters, removal, copy, merge, comparison, text and encoding operations return normally. Cyclic trees, nil receivers and callbacks that change the tree they are visiting are outside this property.",
 ["inputs","histories"],"all acyclic trees reachable through the exported API, all argument values",
 TESTS+"indexes out of range, short binaries and nil children never occur in them.",
 ["dxvalue.go","bin_value.go","jsonparse.go","msgpackparse.go","bson_parse.go","cache.go"],
 [("range checks on idx","SetIndexCached, RemoveIndex, ValueByIndex, Items"),("nil and length guards in the encoders","Value2Json, formatValue, Value2MsgPack, writeObjBsonValue, writeSimpleBsonValue")],
 observe=["every exported method of DxValue","Value2Json","Value2FormatJson","Value2MsgPack","Value2Bson"])
p("C04","Converting between Go values and trees never panics",
 "Storing any Go value in a tree, and loading a tree into any Go destination, returns normally for every combination of Go types and contents: unsigned and unexported struct fields, nil pointers at any level, slices that already have capacity, named and nested types. A kind that is not supported is skipped. (User code that is called, such as a marshaler, and Go values that contain themselves are outside.)",
 ["inputs","programs"],"all Go values and destination types",
 TESTS+"only two small structs are converted; none has unsigned, unexported, nil or pre-sized fields.",
 ["reflect_parse.go","dxvalue.go"],
 [("kind dispatch before every kind-specific accessor","SetValue, SetKeyvalue, SetIndexvalue, decode2reflectFromdxValue, decodeArray2reflect")],
 observe=["SetValue","SetKeyvalue","SetIndexvalue","NewValueFrom","ToStdValue"])
p("C05","A decoder returns a value or an error, never neither and never both",
 "Every operation that builds a value from bytes or from a file returns, for every input, either a non-nil value with a nil error or a nil value with a non-nil error.",
 ["inputs"],"all byte sequences, all four formats, files included",
 TESTS+"documents that are a bare scalar, an unknown lead byte or an empty text are not among them.",
 ["jsonparse.go","msgpackparse.go","bson_parse.go","yamlparse.go"],
 [("result/error pairs at every return","NewValueFrom*, parseJsonValue, parseJsonNum, parseMsgPackValue")],
 observe=["NewValueFromJson","NewValueFromMsgPack","NewValueFromBson","NewValueFromYaml","NewValueFrom*File"])
p("C06","A failed step is always reported",
 "When any step of a decode (a truncated length, a bad key, an invalid number, a broken nested element, an unsupported element type) or of a file operation (open, read, write) fails, the operation that the caller invoked returns a non-nil error. Success is never returned over a failed step.",
 ["inputs","fault_sequences"],"all inputs and all I/O failures, at every nesting level",
 TESTS+"no test checks an error, and no I/O failure is injected.",
 ["jsonparse.go","msgpackparse.go","msgpack_value.go","bson_parse.go","yamlparse.go","iofiles.go","bin_value.go"],
 [("err checked and returned after every fallible call","all decoders, Value2File, SaveBinaryToFile, SetBinaryFromFile, ReadFile")],
 observe=["NewValueFrom*","LoadFrom*","Value2File","SaveBinaryToFile","SetBinaryFromFile","ReadFile"])
p("C07","Without sharing, decoded values never alias the input buffer",
 "When sharing is not requested, no key, string or binary of the decoded tree refers to the memory of the input buffer, so later changes to that buffer cannot change the tree. Decoders that take no sharing option never share.",
 ["inputs","histories"],"all inputs, all element kinds and nesting levels, all later writes to the buffer",
 TESTS+"no test reuses the input buffer after decoding.",
 ["jsonparse.go","msgpackparse.go","bson_parse.go","yamlparse.go","dxvalue.go"],
 [("share flag selects zero-copy or copying conversion","parseJsonKey, parseJsonString, parseMsgPack*, parseBson*, parseValue")],
 observe=["NewValueFrom*","LoadFrom*"])
p("C08","Caller-owned bytes are never modified",
 "Decoding never writes to its input, encoders never change bytes already present in the destination they are given (they only append after them), and storing or replacing binary content never writes into a buffer that the caller supplied earlier.",
 ["inputs","histories"],"all inputs, destinations with any content and spare capacity, all sequences of set/replace",
 TESTS+"none compares a buffer before and after a call, and destinations are nil or fresh.",
 ["jsonparse.go","msgpackparse.go","msgpack_value.go","bson_parse.go","bin_value.go"],
 [("append-only writers","Value2Json, formatValue, Value2MsgPack, write*Bson*"),("length patched at a position taken after the existing content","writeObjBsonValue, writeArrayBsonValue, putLittI32/64"),("fresh copy on replace","SetBinary, SetExtType")],
 observe=["ToJson","ToMsgPack","ToBson","Value2Bson","NewValueFrom*","SetBinary"])
p("C09","The shared constants are immutable and values are isolated",
 "The process-wide constant values for true, false, null, NaN and infinity never change, whatever operation is applied to them, directly or as part of a tree. Operations on one tree therefore never change what another, unrelated tree contains, and package-level state is only changed by the documented configuration and registration calls.",
 ["histories","schedules"],"all operation sequences on values that are, or contain, the shared constants; all goroutine interleavings on distinct trees",
 TESTS+"none edits or merges a tree whose members are constants and then looks at a second tree.",
 ["jsonparse.go","dxvalue.go","cache.go","bin_value.go","reflect_parse.go"],
 [("read-only test before every mutation","Reset, Clear, Set*, merge, Load*")],
 state=[("valueTrue, valueFalse, valueNull, valueNAN, valueINF","process-wide constants","jsonparse.go")],
 observe=["NewValue(VT_True) etc. after any operation","String/Type/Count of an unrelated tree"])
p("C10","Recycled objects carry nothing over from their previous use",
 "A value, member slot or parser taken from a cache or reused after a reset is indistinguishable from a new one: every part of its state that can be observed is re-initialised before use. A recycled object is handed back at most once per release and is not touched afterwards.",
 ["histories","schedules"],"all sequences of acquire, use, release and reuse",
 TESTS+"each test runs in its own process, so nothing is ever recycled.",
 ["cache.go","dxvalue.go","yamlparse.go"],
 [("re-initialisation on acquire","ValueCache.getValue, DxValue.Reset, VObject.getKv, yamlParser.reset"),("clear before put","FreeValue, freeyamlParser")],
 state=[("ValueCachePool, yamlparserPool","recycling pools","cache.go, yamlparse.go")],
 observe=["NewCacheValue","NewValueFrom*(cached)","NewValueFromYaml"])
p("C11","Copies are complete and independent",
 "Cloning or copying a tree reproduces every kind of content (numbers, times, strings, binaries with their extension type, objects, arrays, constants) and the copy shares no mutable part with the original: changing either one never changes the other.",
 ["inputs","histories"],"all trees, all later edits of either tree",
 TESTS+"one flat array of strings is cloned; it is never edited and has no binary.",
 ["dxvalue.go","reflect_parse.go"],
 [("per-type payload copy","clone, CopyFrom, AddFrom")],
 observe=["Clone","CopyFrom","AddFrom","SetValue(*DxValue)","MergeWith"])
p("C12","Equality compares the complete content",
 "Two values compare equal only if they have the same content: both array lengths, every element, every key, every byte of text or binary, and the number itself are compared, for every type of value. An integer and a floating-point number are compared as doubles. The comparison is exact about letter case and does not depend on whether a string has already been unescaped.",
 ["inputs"],"all pairs of trees",
 TESTS+"equality is only exercised through one array merge of three scalars.",
 ["dxvalue.go"],[("per-type comparison","Equal")],observe=["Equal","MergeWith on arrays"])
p("C13","MsgPack decoding follows the format for every lead byte",
 "For each of the 256 lead bytes, decoding yields the kind of value that the MsgPack specification assigns to it (integers with the right width, byte order and sign; floats; strings; binaries; extensions and timestamps; arrays; maps with text keys; nil and booleans), with exactly the content that the following bytes spell out, and the reserved lead byte is an error. Unsigned 64-bit integers keep their 64 bits (there is no unsigned kind of value). Decoding into a new value and into an existing value agree.",
 ["inputs"],"all 256 lead bytes and all payloads",
 TESTS+"one config file with a handful of lead bytes is decoded and printed.",
 ["msgpackparse.go","msgpack_value.go","msgpack_codes.go"],
 [("lead-byte dispatch","parseMsgPackValue, parseMsgPack2Value"),("big-endian readers","parseUint8/16/32/64"),("length readers","parseLen, parseMapLen, parseArrLen, parseExtLen")],
 observe=["NewValueFromMsgPack","LoadFromMsgPack"])
p("C14","MsgPack encoding is well-formed for every value",
 "Every value is encoded as exactly one MsgPack item: each type of value gets a lead byte of its own kind, every integer and every length is written in a field wide enough for it in big-endian order, and a container announces exactly as many elements as are written after it. Text is written unescaped.",
 ["inputs"],"all values, all integers and all lengths below 2^32",
 TESTS+"boundary integers, large lengths, extension binaries and NaN/infinity are never encoded.",
 ["msgpackparse.go","msgpack_value.go","msgpack_codes.go"],
 [("lead-byte and length writers","Value2MsgPack, writeInt, writeStrCode, writeBinCode, writeExtCode, writeMapCode, writeArrayCode")],
 observe=["Value2MsgPack","ToMsgPack"])
p("C15","BSON encoder and decoder agree on type and layout",
 "For every type of value (keys without NUL), the element type byte that the BSON encoder writes is followed by the payload layout which the BSON specification and the decoder assign to that type byte (width, byte order, sign, length prefix, terminator, subtype), and documents carry their total length and a terminator. Element types that the decoder does not support are reported as errors, not skipped.",
 ["inputs"],"all values and all 256 element type bytes",
 TESTS+"one document is written and read, without negative integers, float32, binaries or empty documents.",
 ["bson_parse.go","bson_code.go"],
 [("type byte chosen per value type","writeBsonElementType"),("payload writer","writeSimpleBsonValue, writeObjBsonValue, writeArrayBsonValue"),("payload reader","parseValue, parseBsonDocument, parseBsonArray")],
 observe=["Value2Bson","ToBson","NewValueFromBson","LoadFromBson"])
p("C16","JSON output is well-formed for every value",
 "For every value tree, compact and formatted JSON output consist of exactly one well-formed JSON value: every type of value produces a non-empty token, members and elements are separated by single commas, brackets and quotes are balanced, and with an escaping style every key and string is escaped exactly once (a text still as it stands in the JSON it was parsed from is escaped already); which characters the escaping functions of DxCommonLib replace is that library's matter. NaN and infinities never appear as bare tokens. Every member and element of a container is written, and the token is of the kind that the value's type has in JSON (a text or date a string, a number digits, a Boolean its own constant, a container its brackets).",
 ["inputs"],"all trees, both layouts, both escaping styles",
 TESTS+"output is printed, never parsed; binaries, NaN and constants inside JSON are not covered.",
 ["jsonparse.go"],[("per-type writer","Value2Json, formatValue")],observe=["Value2Json","Value2FormatJson","ToJson","Marshal","Value2File"])
p("C17","Loading in place replaces the old content completely",
 "After a successful load of a non-empty document into an existing value, the value has the type and content that building a new value from the same bytes would give, whatever type and content it had before; nothing of the old content remains and trailing garbage that the builder rejects is rejected by the loader as well.",
 ["inputs","histories"],"all documents, all previous contents and types of the target",
 TESTS+"the loaders are only applied to empty objects.",
 ["dxvalue.go","jsonparse.go","msgpackparse.go","bson_parse.go","yamlparse.go"],
 [("reset to the decoded type before filling","parseJson2Value, parseJsonObj2V, parseJsonArray2V, parseMsgPack2Value, parseMsgPackObject2v, parseMsgPackArray2V, LoadFromBson, LoadFromYaml")],
 observe=["LoadFromJson","LoadFromMsgPack","LoadFromBson","LoadFromYaml","Unmarshal"])
p("C18","Keys are always seen unescaped",
 "Whatever way a member key is read (lookup by name, by index, iteration, conversion to Go maps and structs, encoding in a binary format) it is the unescaped key, and a key stored through the API is stored literally: it is never unescaped a second time and never emitted raw where escaping is due.",
 ["inputs","histories"],"all keys with escapes, all orders of lookups, edits and encodings",
 TESTS+"no key contains an escape.",
 ["dxvalue.go","jsonparse.go","msgpackparse.go","bson_parse.go","reflect_parse.go"],
 [("lazy unescape flag","VObject.keysUnescaped, UnEscapestrs")],
 state=[("keysUnescaped","whether stored keys are literal","dxvalue.go")],
 observe=["Items","KeyNameByIndex","Visit","ToStdValue","Value2MsgPack","Value2Bson"])
p("C19","Defaulted getters return the default exactly when the value is absent",
 "Every getter that takes a default returns that default when the addressed member, element or path does not exist, and otherwise the converted content of exactly that member; it never returns the default, or another member, for an existing value. A getter never creates, removes or changes members.",
 ["inputs"],"all trees, keys, paths, indexes and defaults",
 TESTS+"three lookups are printed; no default is ever returned or compared.",
 ["dxvalue.go"],[("lookup then convert","*ByPath, *ByName, *ByIndex, As*")],observe=["As*","*ByName","*ByPath","*ByIndex"])
p("C20","A scalar is always read as the representation it was stored in",
 "The 8-byte scalar payload of a value is interpreted as an integer, single, double or time only when it was stored as that, in every accessor, comparison and encoder; setters record the type together with the payload (double and time share one representation, and setting either keeps whichever of the two types the value has). So a number never reads back as the bit pattern of another type.",
 ["inputs","histories"],"all scalar types, all sequences of setters and resets, all accessors and encoders",
 TESTS+"single-precision values are never read through the other accessors or encoders.",
 ["dxvalue.go","bson_parse.go","msgpackparse.go","jsonparse.go"],
 [("type tag checked before reinterpretation","Int, Double, Float, Bool, String, writeSimpleBsonValue"),("tag set with payload","SetInt, SetFloat, SetDouble, SetTime, SetDelphiTime, parseValue")],
 state=[("simpleV","untyped 8-byte payload","dxvalue.go")],
 observe=["Int","Float","Double","Bool","DateTime","Value2Bson","Value2MsgPack","Value2Json"])
p("C21","Merging visits every member and element",
 "Merging two trees takes every member of the source object and every element of the source array into account: members missing in the target are added, common members are combined, kept or replaced as the merge callback says, and no member is skipped because of another one. Kept together means that two objects are merged in the same way, two arrays become their union, and any other two become an array of both. What is taken over from the source is a copy. The path given to the callback is exactly the path of the member at hand.",
 ["inputs"],"all pairs of trees and all callbacks",
 TESTS+"one merge with a single top-level member is printed.",
 ["dxvalue.go"],[("member loop","mergeObject"),("element loop","MergeWith")],observe=["MergeWith"])
p("C22","The three Go-value setters agree",
 "Storing a Go value as the root, under a new key, or at a new index gives the same type of value and the same content for every supported Go type, and every supported Go type is supported in all three places.",
 ["inputs","programs"],"all supported Go types",
 TESTS+"only maps and structs with strings and ints are stored.",
 ["reflect_parse.go"],[("per-type dispatch","SetValue, SetKeyvalue, SetIndexvalue")],observe=["SetValue","SetKeyvalue","SetIndexvalue","NewValueFrom"])
p("C23","Saving writes the whole content to a file opened for writing",
 "Saving a value or a binary to a file creates or truncates the file, writes the complete content through a handle that permits writing, and closes the handle on every path; reading a file returns all of its bytes and closes the handle on every path.",
 ["inputs","fault_sequences"],"all contents and file states",
 TESTS+"no test saves anything through the library.",
 ["bin_value.go","jsonparse.go","iofiles.go"],[("open flags, write, close","SaveBinaryToFile, Value2File, ReadFile")],observe=["SaveBinaryToFile","Value2File","ReadFile"])
p("C24","Text numbers are decoded without loss of width",
 "A number in JSON or YAML text is stored at the full width of the parser's result: integers as 64-bit integers, numbers with a fraction or an exponent as doubles, in every position of the document including its very end; it is never narrowed, truncated to its integer part or replaced by zero.",
 ["inputs"],"all numbers in all positions",
 TESTS+"decoded numbers are printed, not compared; exponents and top-level numbers do not occur.",
 ["jsonparse.go","yamlparse.go"],[("number scanner","parseJsonNum, parseJsonNum2V, parseStringValue")],observe=["NewValueFromJson","LoadFromJson","NewValueFromYaml"])
p("C25","Text formats survive a parse and print cycle",
 "Parsing the JSON text printed for a tree yields a tree that prints to the same text.",
 ["inputs"],"all trees","Round-trip equality over all trees; tests print one document.",
 ["jsonparse.go"],[("parser and printer","jsonparse.go")],observe=["Value2Json","NewValueFromJson"])
p("C26","The supported YAML subset has YAML meaning",
 "For every document in the documented YAML subset (block maps and sequences, anchors, aliases, merges, comments, scalars) the tree equals the one a conforming YAML parser builds.",
 ["inputs"],"all documents in the subset","Two sample documents are printed.",
 ["yamlparse.go"],[("indentation stack","yamlparse.go")],observe=["NewValueFromYaml","LoadFromYaml"])
p("C27","Times keep their instant across formats",
 "A time stored in a tree and encoded and decoded in any format denotes the same instant, to the resolution of the format, in every time zone and year.",
 ["inputs","configurations"],"all instants and zones","One current time is written.",
 ["dxvalue.go","msgpackparse.go","bson_parse.go","jsonparse.go"],[("time conversions","SetTime, GoTime, encoders")],observe=["GoTime after decode"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
