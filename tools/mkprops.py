import json
L="cloudini_lib/"
S=L+"src/"; H=L+"include/cloudini_lib/"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=a))

p("C01","Integer fields survive compression unchanged",
"Encoding a point cloud in the default lossy mode and decoding the result returns every integer field (8, 16, 32 and 64 bit, signed and unsigned) of every point with exactly the value it had. This holds for every value of the type (including the extremes), every point layout, every number of points, every supported stream version (3, 4 and 5), every second-stage compressor and with or without the compression thread.",
["inputs","configurations"],"all integer field types x all values and value sequences x layouts x point counts (1 to several chunks) x versions 3-5 x {none, LZ4, ZSTD} x threads on/off",
"The tests round-trip a handful of fixed arrays (ramps, one palette, one run) of one or two types; a delta that overflows, a palette size at a power of two, a mode chosen on the first 4096 points and then fed different data, or a run crossing a chunk boundary is only reachable by quantifying over values, lengths and layouts.",
[S+"v5_codec.cpp",S+"v4_codec.cpp",H+"encoding_utils.hpp",H+"field_encoder.hpp",H+"field_decoder.hpp",S+"cloudini.cpp"],
[("delta + zig-zag varint",H+"encoding_utils.hpp encodeVarint64/decodeVarint"),("adaptive integer sections (delta, palette, RLE, delta-RLE)",S+"v5_codec.cpp"),("per-chunk state reset",S+"v4_codec.cpp EncodeV4Stage1Chunk/DecodeV4Stage1Chunk")],
[("prev_value","previous value of the field within a chunk",H+"field_encoder.hpp"),("committed_mode","adaptive mode picked on the first chunk and kept for the rest of the cloud",S+"v5_codec.cpp")])

p("C02","Lossy float error is at most half the resolution; NaN is preserved",
"In lossy mode, every finite value of a float field that has a resolution decodes to a value that differs from the original by at most half that resolution (plus the rounding of the floating-point type itself), as long as the value divided by the resolution fits in 31 bits (51 bits for float64). NaN decodes to NaN and no other value does, and a NaN, a chunk boundary, or the values of neighbouring points and fields never change another value's error.",
["inputs","configurations"],"all float32/float64 value sequences with NaNs, |x/res| < 2^31 (float32) or 2^51 (float64), 1..6 leading float fields with equal or different resolutions, layouts, versions 3-5, compressors, threads, SIMD and scalar builds",
"Tests check one smooth curve at one resolution per encoder; half-tick ties, negative values, NaNs in one lane only, per-axis different resolutions, the 2/3/4/5-leading-floats split and chunk resets are input-universal.",
[H+"field_encoder.hpp",S+"field_encoder.cpp",S+"field_decoder.cpp",H+"intrinsics.hpp",S+"codec_common.cpp"],
[("vector quantiser with SIMD and scalar paths",S+"field_encoder.cpp FieldEncoderFloatN_Lossy::encode"),("scalar quantiser",H+"field_encoder.hpp FieldEncoderFloat_Lossy::encode"),("rounding cast",H+"intrinsics.hpp cast_vector4f_to_vector4i"),("NaN marker resets the predictor on both sides",S+"field_decoder.cpp")])

p("C03","Lossless modes and fields without a resolution are bit exact",
"A cloud encoded with the lossless option, or with the first stage disabled, decodes to exactly the bits that went in for every field, including NaN payloads, signed zeros, infinities and denormals. In lossy mode the same holds for every float32 and float64 field that carries no resolution.",
["inputs","configurations"],"all bit patterns and sequences of float32/float64/integers, options {none, lossless, lossy without resolution}, resolutions present but unused, versions 3-5, layouts, compressors, threads",
"Existing lossless tests use smooth or lightly random doubles; the bit-packed coder has data-dependent windows (leading zeros clamp at 31, 64 significant bits, window reuse) and byte alignment that only some XOR sequences reach.",
[H+"field_encoder.hpp",H+"field_decoder.hpp",S+"codec_common.cpp"],
[("XOR residual coder",H+"field_encoder.hpp FieldEncoderFloat_XOR"),("Gorilla bit-packed coder",H+"field_encoder.hpp FieldEncoderFloat_Gorilla"),("coder selection shared by encoder and decoder",S+"codec_common.cpp CreateCompatibleEncoder/Decoder")])

p("C04","Decoding writes the declared fields of the declared points and nothing else",
"Decoding into a caller-supplied buffer modifies only the bytes of the fields declared in the cloud description, for exactly the declared number of points; padding between and after fields and any memory beyond the last point keep their previous contents. A field whose offset is the reserved 'decode but do not store' value is consumed from the stream without being written, and the other fields decode exactly as before.",
["inputs","configurations"],"all layouts (gaps, shuffled order, trailing padding, any alignment), any subset of fields marked skip-store, clouds of 1 point to several chunks, any buffer larger than required",
"The existing tests decode packed structs into exactly sized vectors and never look at padding; only one PCL path uses skip-store. The claim quantifies over layouts and subsets.",
[H+"field_decoder.hpp",S+"field_decoder.cpp",S+"v5_codec.cpp",H+"basic_types.hpp"],
[("skip-store offset",H+"basic_types.hpp kDecodeButSkipStore"),("per-point view limited to point_step",S+"v4_codec.cpp"),("scatter writes of adaptive sections",S+"v5_codec.cpp writeRawBitsToPoint")])

p("C05","The stream header round-trips in both encodings",
"Writing a cloud description as a header (text or binary form) followed by arbitrary payload bytes and reading it back yields the same version, width, height, point step, options and fields - names, offsets, types and bit-identical resolutions - and consumes exactly the header, leaving the payload untouched. Anything without the magic prefix or with an unsupported version number is rejected.",
["inputs","configurations"],"all descriptions with supported versions (any width/height/step, any number of fields, any byte string as field name that the format can carry, any positive float resolution), both header forms, any payload after it",
"Tests round-trip two fixed headers with plain names and resolution 0.001/0.01; formatting of an arbitrary float, names with YAML-significant characters, and a binary header that happens to look like text need quantification over inputs.",
[S+"cloudini.cpp",H+"yaml_parser.hpp"],
[("EncodeHeader / DecodeHeader",S+"cloudini.cpp"),("text vs binary detection",S+"cloudini.cpp DecodeHeader"),("YAML subset parser",H+"yaml_parser.hpp")])

p("C06","Decoding untrusted bytes is memory safe",
"For any byte string given as header and payload, parsing the header and decoding the payload either succeed or report an error by exception; they never read outside the input, never write outside the output buffer of width x height x point step bytes, never crash and never loop without bound. The same decoder object can be used again after such a failure.",
["inputs"],"all byte strings: random, mutated valid streams (header fields, chunk sizes, section mode bytes, run counts and lengths, palettes, varints, bit-packed windows), hand-made descriptions with inconsistent offsets",
"A test can only carry finitely many corrupt streams; the repository's own cover truncation and one bad varint.",
[S+"cloudini.cpp",S+"v5_codec.cpp",S+"v4_codec.cpp",S+"codec_common.cpp",H+"field_decoder.hpp",H+"encoding_utils.hpp",H+"yaml_parser.hpp"],
[("bounded views",H+"contrib/span.hpp"),("per-point minimum size check",S+"v4_codec.cpp DecodeV4Stage1Chunk"),("varint bound and overflow checks",H+"encoding_utils.hpp decodeVarint"),("section checks",S+"v5_codec.cpp decodeV5AdaptiveIntSection"),("bounded decompression",S+"codec_common.cpp DecompressChunk")])

p("C07","Incomplete or overlong payloads are reported, never silently accepted",
"If a valid encoded payload (version 3 or later) is cut at any byte position, or a whole extra chunk or leftover bytes that cannot form a chunk are appended, or the declared number of points is changed so that it no longer matches the number of chunks, decoding reports an error instead of returning a cloud. The same holds for a chunk whose content does not describe exactly its points: bytes left over after the last point or missing before it, a number of declared points that the content contradicts, runs that add up to fewer or more points than the chunk has, a palette that is empty or an index beyond it, an unknown section kind, an integer or run length of more than 64 bits, the NaN marker where an integer is expected, and a bit-packed window that does not fit into 64 bits or reuses a window that was never given. Passing a buffer that still contains the header, or an output buffer too small for the declared cloud, is reported as well.",
["inputs","fault_sequences"],"all valid streams x all cut positions (byte exact) x appended chunks/bytes x altered point counts x undersized output buffers; all chunks x leftover bytes, run lengths, palettes, section kinds, windows",
"Tests truncate one stream at one or two positions; the guarantee is about each cut position of each stream under each compressor.",
[S+"cloudini.cpp",S+"v4_codec.cpp",S+"v5_codec.cpp"],
[("chunk loop bookkeeping of remaining points",S+"cloudini.cpp PointcloudDecoder::decode"),("expected point count per chunk, leftover check",S+"v4_codec.cpp, v5_codec.cpp"),("section checks",S+"v5_codec.cpp decodeV5AdaptiveIntSection"),("window checks",H+"field_decoder.hpp FieldDecoderFloat_Gorilla")])

p("C08","The advertised size bound is sufficient for every cloud",
"For every cloud description and every content, encoding into a caller-supplied buffer of exactly the advertised worst-case size succeeds, returns the number of bytes written, and writes nothing beyond the buffer or beyond the worst case. The size returned and the bytes produced are the same as those of the allocating call, with the header present or absent as requested, and a buffer smaller than the bound is refused before anything is written outside it.",
["inputs","configurations"],"all descriptions, contents chosen to maximise expansion (random 64-bit integers, alternating extremes, mode committed on benign data then adversarial data), point counts from 0 to several chunks, header on/off, compressors, threads",
"The existing tests check the bound on two benign clouds; an undersized bound shows only for worst-case content and lengths.",
[S+"cloudini.cpp",S+"codec_common.cpp",S+"v5_codec.cpp",S+"chunk_writer.cpp"],
[("MaxCompressedSize",S+"cloudini.cpp"),("MaxSerializedFieldSize",S+"codec_common.cpp"),("V5StageBufferSize",S+"v5_codec.cpp")])

p("C09","Encoders and decoders carry no state between clouds",
"An encoder or decoder object used for any sequence of clouds (different sizes, contents, descriptions for the decoder, and calls that fail in between) produces for each cloud exactly the bytes a brand new object would produce. The output does not depend on whether the compression thread is used, nor on which of the equivalent entry points is called.",
["histories","configurations","inputs"],"all sequences of encode/decode calls on one object, mixed with failing calls (bad sizes, small buffers, corrupt payloads), threads on/off, allocating/pre-allocated entry points",
"Tests reuse an encoder two or three times with the same cloud; state leaks (predictors, adaptive modes, scratch buffers, double buffering, decoder tables) depend on the history.",
[S+"cloudini.cpp",S+"v4_codec.cpp",S+"v5_codec.cpp"],
[("state reset per call/chunk",S+"v4_codec.cpp ResetEncoders"),("decoder table rebuilt per call",S+"cloudini.cpp updateDecoders"),("double-buffered worker hand-off",S+"cloudini.cpp compressionWorker")],
[("has_data_to_compress_/compression_done_","hand-off flags of the worker",H+"cloudini.hpp"),("decompressed_buffer_","scratch reused between calls",H+"cloudini.hpp")])

p("C10","Streams in every published format version remain decodable",
"A stream written according to the published format of version 2, 3, 4 or 5 - with a text or binary header, any first-stage option, any compressor, any combination of field coders and (for version 5) any of the four section kinds whichever is shortest - decodes to the values it encodes. This is independent of which choices the current encoder would have made.",
["inputs","configurations"],"all descriptions and contents, streams produced by an independent reference encoder for versions 2 to 5 with arbitrary legal section kinds and chunk contents",
"The repository only decodes what its own current encoder writes; version 2 and foreign choices of section kind are never exercised.",
[S+"cloudini.cpp",S+"v4_codec.cpp",S+"v5_codec.cpp",S+"codec_common.cpp"],
[("version dispatch",S+"cloudini.cpp PointcloudDecoder::decode"),("legacy coder selection",S+"codec_common.cpp CreateCompatibleDecoder"),("section decoders",S+"v5_codec.cpp decodeV5AdaptiveIntSection")])

p("C11","Encoder output conforms to the published stream format",
"The bytes produced by the encoder are a well-formed stream of the version announced in the header: chunks of 32768 points each prefixed with its compressed length, the documented coder for each field in field order, and documented section kinds. An independent reader that knows only the published format recovers the same values the library's own decoder does.",
["inputs","configurations"],"all descriptions and contents, versions 3-5, compressors, all option combinations",
"Encoder and decoder are tested only against each other: a change applied symmetrically to both keeps every test green and makes every previously recorded file and every deployed reader (Python, JavaScript, older robots) wrong.",
[S+"cloudini.cpp",S+"v4_codec.cpp",S+"v5_codec.cpp",H+"field_encoder.hpp",S+"field_encoder.cpp",S+"chunk_writer.cpp"],
[("chunk framing",S+"chunk_writer.cpp WriteStage1Chunk"),("field coders",H+"field_encoder.hpp"),("section writer",S+"v5_codec.cpp")])

p("C12","Adaptive integer coding picks the smallest representation",
"For a cloud of at most 4096 points, each integer field of a version 5 lossy stream is stored with a section no larger than any of the four legal section kinds would need for that content. For larger clouds the choice made on the first 4096 points is kept for the whole cloud, and when no field is eligible the payload is byte-identical to version 4.",
["inputs","configurations"],"all integer value sequences (type, length, content), several integer fields per point, clouds below and above the sampling window, float-only clouds",
"Tests look at a few hand-picked contents and check only that the size is small; minimality must hold for every content, in particular near ties and at power-of-two palette sizes.",
[S+"v5_codec.cpp"],
[("size estimators and mode selection",S+"v5_codec.cpp analyzeAdaptiveIntField/selectBestAdaptiveIntMode"),("commit of the mode after the probe window",S+"v5_codec.cpp commitAdaptiveIntMode"),("codec dispatch",S+"v5_codec.cpp UsesV5Codec")])

p("C13","ROS point cloud messages survive message-level compression",
"Compressing a serialized point cloud message and decompressing the result yields a message with the same header stamp and frame, width, height, fields, point step, density flag and point data (within the resolution for lossy floats, exact otherwise), as read by an independent reader of the middleware serialization format. The compressed message is itself a well-formed compressed-cloud message carrying the same metadata and the format name, and this holds for empty and organized clouds, any string lengths and alignments, and both byte orders of the serialization header. A compressed message whose data describes another number of points or another point step than the message itself announces is reported instead of being restored.",
["inputs","configurations"],"all messages (frame ids of any length, 1..n fields, organized/unorganized, empty, 1..n chunks, dense or not), all encoding options, little- and big-endian encapsulation",
"The test suite checks one recorded message; alignment and string-length dependent serialization bugs need the whole space.",
[S+"ros_msg_utils.cpp",H+"ros_msg_utils.hpp",H+"contrib/nanocdr.hpp"],
[("message readers and writers",S+"ros_msg_utils.cpp"),("CDR alignment",H+"contrib/nanocdr.hpp")])

p("C14","The message serializer and parser are inverse and follow the CDR rules",
"Any sequence of primitive values, strings, arrays and sequences written by the serializer in a given byte order is read back identically, and the bytes equal those of an independent implementation of the classic CDR layout (alignment to the element size relative to the start of the body, length-prefixed strings with terminator). Truncating the buffer at any point makes the parser report an error instead of reading past it.",
["inputs","histories"],"all sequences of typed values of any length and both byte orders, all truncation points",
"Tests serialize one message; alignment depends on everything written before.",
[H+"contrib/nanocdr.hpp"],
[("align / encode / decode",H+"contrib/nanocdr.hpp")])

p("C15","Copies and moves of a cloud message own consistent data",
"After any sequence of copy constructions, move constructions, assignments (including self assignment), preprocessing and destruction of cloud message objects, each live object still presents exactly the point bytes it logically holds. A message whose data lives in its own buffer never refers to another object's buffer, and one that refers to an external buffer keeps referring to it.",
["histories"],"all histories of copy/move/assign/self-assign/destroy/preprocess over a pool of message objects",
"Tests copy one object once; dangling views depend on the history and on which object dies first.",
[H+"ros_msg_utils.hpp"],
[("rebindOwnedDataView / dataViewsOwnedData",H+"ros_msg_utils.hpp")],
[("owned_data/data","view and its optional backing store",H+"ros_msg_utils.hpp")])

p("C16","Resolution profiles and visual preprocessing do exactly what is documented",
"Applying a resolution profile removes precisely the fields whose profile value is zero, sets the listed resolutions, gives the default resolution only to unlisted float32 fields, and leaves order and everything else alone. Visual preprocessing keeps, in order and byte for byte, the first point of every voxel of the position resolution and drops the non-finite positions and later points of the same voxel, marks unquantised doubles with a microsecond resolution, updates the dimensions accordingly, and is a no-op when there is no position triple with a common positive resolution; applying it twice equals applying it once.",
["inputs","configurations"],"all profiles and field lists; all clouds with coordinates within +-2^20 ticks, duplicate and near-boundary positions, NaN/inf, any layout",
"Tests use a few points; duplicates, negative coordinates, rounding ties and layouts vary over an unbounded space.",
[S+"ros_msg_utils.cpp",H+"ros_msg_utils.hpp"],
[("applyResolutionProfile",S+"ros_msg_utils.cpp"),("applyVizLossyPreprocessing / voxel key packing",S+"ros_msg_utils.cpp")])

p("C17","PCL clouds and PCD files round-trip through the codec",
"Compressing a PCL cloud (generic or typed point structure) and decompressing it, into the same or a different point structure, restores every common field of every point (exact, or within the resolution for lossy floats) and the cloud dimensions. The description derived from a PCD file header names every field with the type that PCL itself reads.",
["inputs","configurations"],"all generic PCL clouds (any field list, paddings, organized), typed clouds of several point structures, cross-structure decode, PCD headers with comments and all size/type combinations",
"Tests cover two typed clouds of a fixed size.",
[S+"pcl_conversion.cpp",H+"pcl_conversion.hpp"],
[("ConvertToEncodingInfo / PointcloudEncode / PointcloudDecode",H+"pcl_conversion.hpp"),("ReadEncodingInfoFromPCD",S+"pcl_conversion.cpp")])

p("C18","The C interface agrees with the C++ library and never lets an error escape",
"For every message or stream, the C interface used by the WebAssembly, Python and JavaScript front ends returns the same bytes and sizes as the corresponding C++ calls. On malformed input, or when any call would fail, it returns zero (or an empty result) rather than throwing or writing outside the announced output, and subsequent calls work normally.",
["inputs","histories"],"all valid and corrupted messages and streams, all options, sequences of calls mixing valid and invalid input",
"The C interface has no tests at all in the suite.",
[S+"wasm_functions.cpp",H+"wasm_functions.h"],
[("exception barrier in every exported function",S+"wasm_functions.cpp"),("size queries",S+"wasm_functions.cpp")])

p("C19","Variable-length integers are uniquely decodable and bounded",
"Every signed 64-bit value encodes to between one and ten bytes, none of them starting with the byte reserved for NaN, and decodes back to the same value consuming exactly the bytes written, whatever follows; smaller magnitudes never take more bytes. Every truncated, overlong or NaN-marker input is reported as an error without reading past the given length.",
["inputs"],"all 64-bit values (boundary-biased), all byte strings up to 12 bytes with any length limit",
"Tests sample a few values; the reserved-zero offset makes the extreme values special.",
[H+"encoding_utils.hpp"],
[("encodeVarint64 / decodeVarint",H+"encoding_utils.hpp")])

p("C20","The encoder refuses what it cannot represent; it never emits garbage",
"For any description - unsupported version, zero, negative, NaN or infinite resolution, unknown field type, field lying outside the point, data size that is not a multiple of the point step - the encoder either reports an error or produces a stream that its own decoder accepts and that reproduces the cloud. It never reads outside the input cloud or writes outside the output.",
["inputs","configurations"],"all descriptions including invalid ones, with content",
"Tests never build an encoder from an invalid description except for one zero resolution.",
[S+"cloudini.cpp",S+"field_encoder.cpp",H+"field_encoder.hpp",S+"codec_common.cpp"],
[("argument checks in constructors and encode()",S+"cloudini.cpp"),("resolution checks",H+"field_encoder.hpp")])

p("C21","Independent encoders and decoders can run concurrently",
"Any number of encoder, decoder and message-conversion objects used from different threads at the same time produce the same results as when they run one after the other. There is no data race between them or between an encoder and its compression thread, and constructing, using, failing and destroying an encoder always terminates.",
["schedules","histories"],"thread counts 2-8, random workloads and interleavings, encoder construction/destruction at any point, multi-chunk clouds with the worker thread",
"Tests are single-threaded; the worker hand-off and the thread-local scratch only misbehave under some schedules.",
[S+"cloudini.cpp",S+"ros_msg_utils.cpp"],
[("mutex/condition variable hand-off",S+"cloudini.cpp compressionWorker/waitForCompressionComplete"),("thread_local scratch",S+"ros_msg_utils.cpp applyVizLossyPreprocessing")],
[("has_data_to_compress_, compression_done_, should_exit_, worker_failed_","worker hand-off",H+"cloudini.hpp")])

p("C22","The Python decoder returns what the C++ library would",
"For every stream or message, the Python decoder module reports the same metadata and the same point values as the C++ library, with the right numeric type for each field. Malformed input raises an exception and leaves the decoder usable. The command line tool decode_mcap.py goes through a whole recording, with or without an index, and reports every compressed message in it as decoded or as failed, up to the requested number.",
["inputs","histories"],"all streams and messages the encoder can produce with 1..n fields of every type; corrupted input in between; all recordings",
"There are no Python tests in the suite.",
["cloudini_py/cloudini_decoder.py","cloudini_py/decode_mcap.py",S+"wasm_functions.cpp"],
[("type map and structured dtype",  "cloudini_py/cloudini_decoder.py"),("going through a recording","cloudini_py/decode_mcap.py"),("memory marshalling", "cloudini_py/cloudini_decoder.py")])

p("C23","The text description of a cloud and the enum names are faithful",
"Converting a cloud description to its text form and back gives an equal description including version, configuration string and bit-identical resolutions, and every name of an option, compressor or field type maps back to the same value. Unknown names or malformed text are reported as errors; they never crash or read out of bounds.",
["inputs","configurations"],"all descriptions with any printable or non-printable names and any positive resolution; all enum values; arbitrary and mutated text",
"Tests use one fixed description; the text form is what Python, JavaScript and the C interface exchange.",
[S+"cloudini.cpp",H+"yaml_parser.hpp"],
[("EncodingInfoToYAML / EncodingInfoFromYAML",S+"cloudini.cpp"),("YAML::parse",H+"yaml_parser.hpp"),("ToString / FromString",S+"cloudini.cpp")])

p("C24","Resource failures surface as errors and leave encoder and decoder usable",
"If an allocation fails at any point while encoding or decoding - in the calling thread or in the compression thread - the call reports an error (it neither crashes, hangs, nor returns a wrong size), nothing keeps writing into the caller's buffer after the call has returned, and the next call on the same object behaves like one on a new object.",
["fault_sequences","histories"],"every allocation index within a call x clouds of 1..n chunks x compressors x threads on/off x following calls",
"No test injects a failure; the recovery path of the compression thread is never executed.",
[S+"cloudini.cpp",S+"v5_codec.cpp",S+"codec_common.cpp"],
[("worker exception hand-over and respawn",S+"cloudini.cpp compressionWorker/encode"),("RAII buffers",S+"cloudini.cpp")],
[("worker_failed_/worker_exception_","failure hand-over",H+"cloudini.hpp")])

p("C25","Parsing untrusted messages is memory safe",
"For any byte string given as a serialized point cloud message, compressed message or text description, parsing it, converting it in either direction and preprocessing it either succeed or report an error. They never read outside the message, never write outside the result and never crash.",
["inputs"],"all byte strings: random and structure-aware mutations of valid messages (lengths, counts, dimensions, nested stream), both byte orders",
"Tests parse one recorded valid message.",
[S+"ros_msg_utils.cpp",H+"contrib/nanocdr.hpp",S+"wasm_functions.cpp",H+"yaml_parser.hpp"],
[("length checks in the parser",H+"contrib/nanocdr.hpp"),("dimension checks before decoding",S+"ros_msg_utils.cpp")])

p("C26","Recorded bags are converted without losing or altering messages",
"Converting a recording to its compressed form and back - with the converter class or the command line tool - preserves the sequence of messages, their channels (topic, encoding, schema, metadata; channels without a schema as well), timestamps, the profile and the metadata records, passes through untouched every message that is not a point cloud, and converts every point cloud message with the codec's guarantees and the resolution profile that was given as text or as a file. Only channels of the right schema are rewritten, in the recording and in the metadata.yaml next to it. The message definition stored with a converted channel describes its messages: a reader that only follows the definition gets every member. One converter can process any number of recordings. Cutting a recording keeps the first messages of each point cloud channel unaltered. The input recording and its metadata are never modified, whatever the output name is. The converter replaces an existing output only when that is confirmed, and reports by its exit status what it cannot convert.",
["inputs","histories","configurations"],"all recordings: any mix of channels, schemas and messages, any order, any resolution profile, any output path",
"The converter tools are not built by the test suite and have no tests.",
[L+"tools/src/mcap_converter.cpp",L+"tools/include/mcap_converter.hpp",L+"tools/src/cloudini_rosbag_converter.cpp",L+"tools/src/mcap_cutter.cpp"],
[("channel/schema rewriting",L+"tools/src/mcap_converter.cpp"),("file handling and metadata.yaml",L+"tools/src/cloudini_rosbag_converter.cpp"),("cutting",L+"tools/src/mcap_cutter.cpp")])

p("C27","Quantisation rounds to the nearest tick and is stable",
"In lossy mode, decoding and re-encoding a decoded cloud with the same description is idempotent: the second decode equals the first bit for bit (for values below 2^21 ticks), so repeated compression does not accumulate error. Translating the order of points, splitting a cloud at a chunk boundary, or encoding the fields as separate clouds does not change any decoded value (for values that are not exactly half-way between two ticks).",
["inputs","histories"],"all float clouds with |x/res| < 2^21, any resolution, any permutation, any split at multiples of the chunk size",
"No test compresses twice; drift and order dependence are relations between runs, not values of one run.",
[S+"field_encoder.cpp",H+"field_encoder.hpp",S+"field_decoder.cpp"],
[("round to nearest on encode, multiply on decode",H+"field_encoder.hpp, "+S+"field_decoder.cpp")])

p("C28","The PCD converter writes what its options ask for, or reports an error",
"Converting a PCD file, or a directory of them, with the command line tool produces for each of them a compressed file that decodes to the points of the input, using the requested encoding and compression and the requested resolutions for the coordinates and the intensity. Whenever the output cannot be produced - unreadable input, unknown option value, output that cannot be opened or written - the exit status tells, and an existing output is only replaced after a confirmation. The input is never modified.",
["inputs","configurations","faults"],"all PCD files with scalar fields of any type, all combinations of options, existing outputs, devices without space",
"The tool is built but never run by the tests; whether an option has an effect is visible only by comparing runs with different options.",
[L+"tools/src/pcd_to_cloudini_converter.cpp",S+"pcl_conversion.cpp"],
[("options",L+"tools/src/pcd_to_cloudini_converter.cpp"),("PCLPointCloudEncode of a file",S+"pcl_conversion.cpp")])
p("C29","The ROS plugins, node and subscriber transport every cloud unchanged",
"A cloud published through the transport plugin and received by its subscriber counterpart, converted by the topic converter node in either direction, or delivered by the PCL subscriber arrives with the header, dimensions, fields, density flag and points it was sent with (exact, or within the configured resolution for floats), whatever was sent before on the same objects; empty clouds included. The compressed messages carry the format name and are interchangeable with those of the message conversion functions. Damaged or inconsistent messages are reported and do not affect the following ones. A delivered PCL cloud belongs to the receiver: it stays intact while it is kept, even longer than the subscriber lives, and can be released from any thread.",
["inputs","histories","schedules","configurations"],"all messages, any sequence of good and damaged ones, any parameter values, any lifetime and thread of the delivered clouds",
"The ROS package is not built or tested here; its tests are demo nodes.",
["cloudini_ros/src/cloudini_publisher_plugin.cpp","cloudini_ros/src/cloudini_subscriber_plugin.cpp","cloudini_ros/src/cloudini_subscriber_pcl.cpp","cloudini_ros/src/topic_converter.cpp","cloudini_ros/src/conversion_utils.cpp"],
[("transport plugins","cloudini_ros/src/cloudini_publisher_plugin.cpp, cloudini_ros/src/cloudini_subscriber_plugin.cpp"),("converter node","cloudini_ros/src/topic_converter.cpp"),("pool of clouds","cloudini_ros/src/cloudini_subscriber_pcl.cpp")])

p("C30","The Foxglove extension returns exactly the cloud of the message, or an error",
"For every compressed point cloud message of this package, the message converter of the Foxglove extension returns a point cloud message with the header, dimensions, fields, point step and density flag of the input and with the data that the C++ decoder produces, empty clouds included; the returned data and the input stay independent of later conversions. Messages whose compressed data is damaged, or has another size than the message announces, and messages converted while the memory of the WebAssembly module is exhausted, raise an error. No conversion reads or writes outside of the blocks it allocated in the memory of the module, and each one releases all of them, so that a stream of good and bad messages can go on for ever.",
["inputs","histories","faults"],"all messages up to a quarter of the memory of the module, any sequence of good and damaged ones, failing allocations, growth of the memory during a call",
"The extension has no tests; what it returns is only seen on a screen.",
["cloudini_foxglove/src/PointCloudConverter.tsx","cloudini_foxglove/src/index.ts",S+"wasm_functions.cpp"],
[("conversion","cloudini_foxglove/src/PointCloudConverter.tsx"),("registration of the converter","cloudini_foxglove/src/index.ts"),("C interface",S+"wasm_functions.cpp")])

p("C31","The inspection and benchmark tools report what a recording contains",
"For every recording, mcap_header_inspector shows the header of the first compressed message of a point cloud channel exactly as the library reads it (dimensions, options, every field with its type, offset and resolution, the sizes and totals), or says that there is none. mcap_codec_benchmark reports, per topic and in total, the number of point cloud messages and points, their size, and for each mode the compressed size and the ratio of exactly the messages it encoded, as the library computes them; its fingerprint of the decoded data is that of the decoder, and its explanation describes the first cloud of each topic before and after preprocessing. Messages that cannot be read or encoded neither end the run nor enter the ratio. What the tools cannot do (no such file, not a recording, nothing to inspect or measure, contradicting options) is reported by the exit status. Neither tool modifies the recording.",
["inputs","configurations"],"all recordings: any mix of channels, schemas, good and damaged messages, any dimensions in the header, all options of the tools",
"The tools are not built by the test suite and have no tests.",
[L+"tools/src/mcap_header_inspector.cpp",L+"tools/src/mcap_codec_benchmark.cpp"],
[("header report",L+"tools/src/mcap_header_inspector.cpp"),("passes over the recording, totals, explain mode",L+"tools/src/mcap_codec_benchmark.cpp")])

p("C32","The web page reports the sizes of the clouds of a recording correctly",
"When a recording is given to the web page, it lists every channel with its topic, schema and number of messages as plain text (no name is interpreted as markup), and for all point cloud channels together shows the original size, the compressed size and the ratio of exactly those messages that were compressed, as the C++ library computes them. Messages of other channels, damaged messages and messages that do not fit into the memory of the module are left out and do not stop the analysis; failures are shown to the user. No block of the module's memory is leaked or accessed out of bounds, and any number of recordings can be analysed one after another.",
["inputs","histories","faults"],"all recordings (channels sharing topics, names of any characters, clouds of any layout, damaged messages), failing allocations and downloads, growth of the memory, sequences of recordings",
"The page has no tests; what it shows is only seen on a screen.",
["cloudini_web/main.js",S+"wasm_functions.cpp"],
[("analysis of a recording","cloudini_web/main.js"),("size computation",S+"wasm_functions.cpp cldn_ComputeCompressedSize")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
