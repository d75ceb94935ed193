import json
S="src/streaming/"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=[],obs=[],hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[f if '/' in f else S+f for f in files],state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook)))
p("C01","Frames map to the row-major chunk grid",
 "For every array geometry with at least three dimensions and every frame number, the chunk (among the chunks of the current append-step) and the byte offset inside that chunk to which the frame is assigned are exactly those of the Zarr C-order chunk grid: each non-spatial index of the frame is split by its chunk size into a chunk coordinate and a within-chunk coordinate. The number of chunks held in memory and the bytes per chunk equal the products of the per-dimension chunk counts and of chunk sizes and pixel size. Consequently two different frames that share an append-step never occupy the same bytes.",
 ["inputs","configurations"],"every number of dimensions, every array/chunk size per dimension (including ragged ones), every data type, every frame number",
 "Five unit tests evaluate a few dozen frame numbers on one geometry each; the formulas involve products, quotients and remainders over an arbitrary number of dimensions.",
 ["zarr.dimension.cpp","zarr.dimension.hh","zarr.common.cpp"],
 [("chunk_lattice_index / tile_group_offset / chunk_internal_offset",S+"zarr.dimension.cpp"),("number_of_chunks_in_memory / bytes_per_chunk",S+"zarr.dimension.cpp"),("chunks_along_dimension / bytes_of_type",S+"zarr.common.cpp")],
 [("dims_","array, chunk and shard sizes per dimension, slowest first",S+"zarr.dimension.hh")],["return values of the indexing functions; position of pixels in the stored chunks"])
p("C02","Chunks map one-to-one onto shard slots",
 "For every array geometry, each chunk index is assigned to the shard and to the slot inside that shard given by dividing its chunk-grid coordinates by the chunks-per-shard of each dimension (quotients in C-order give the shard, remainders in C-order give the slot). Every shard number is below the number of shards, every slot is below the number of chunks per shard, and two different chunks never get the same shard and slot.",
 ["inputs","configurations"],"every number of dimensions, every array/chunk/shard size (ragged or not), every chunk index",
 "Two unit tests list a handful of chunk indices for fixed geometries whose append-dimension shard size is 1 in one of them; bijectivity is a statement over all geometries and indices.",
 ["zarr.dimension.cpp","zarr.common.cpp"],
 [("shard_index_for_chunk / shard_internal_index / number_of_shards / chunks_per_shard",S+"zarr.dimension.cpp"),("shards_along_dimension",S+"zarr.common.cpp")],[],["return values; which index entry of which shard file describes a chunk"])
p("C03","Every pixel of a frame is copied once, nothing else changes",
 "Writing one frame copies every pixel of it exactly once to its place in the chunk and tile it belongs to, leaves every other byte of every chunk buffer unchanged (so padding of ragged tiles stays zero), never reads outside the frame or writes outside a chunk, and reports exactly the frame's size. A frame of any other size is rejected: zero bytes are reported and nothing changes.",
 ["inputs","configurations"],"every frame width/height, tile width/height (larger than, dividing, or not dividing the frame), data type, frame number and content",
 "The one test of this function is not even buildable here and uses one geometry; bounds and exact-once are universally quantified over pixels and geometries.",
 ["array.writer.cpp","array.writer.hh","zarr.common.cpp"],
 [("write_frame_to_chunks_ / write_frame / make_buffers_",S+"array.writer.cpp"),("bytes_of_frame",S+"zarr.common.cpp")],[("chunk_buffers_","raw bytes of the chunks of the current append-step",S+"array.writer.hh")],["content of stored chunks"])
p("C04","Accepted frames are stored exactly once, at chunk boundaries or close",
 "After any sequence of accepted frames the buffered chunks are written out exactly when an append-step of chunks is full and once more at close if something is still unwritten; after each write-out the buffers are zero again and the next append-step goes to new storage exactly when the current chunk (version 2) or shard (version 3) is complete. At close, all remaining frames are written, an index is written for every shard begun, every storage object opened is finalized, and the array metadata is written.",
 ["histories","configurations"],"every number of frames (including ones ending exactly on, or between, chunk and shard boundaries), every geometry",
 "Tests stop at one or two frame counts; the defects live at particular stop points (e.g. on a chunk boundary inside a shard).",
 ["array.writer.cpp","zarrv2.array.writer.cpp","zarrv3.array.writer.cpp"],
 [("write_frame / should_flush_ / flush_ / rollover_ / close_sinks_ / finalize_array",S+"array.writer.cpp"),("should_rollover_",S+"zarrv2.array.writer.cpp, "+S+"zarrv3.array.writer.cpp")],
 [("frames_written_, bytes_to_flush_, append_chunk_index_, is_finalizing_","progress of the array",S+"array.writer.hh")],["files/objects present and their content after any number of appends and a destroy"])
p("C05","A shard's index describes exactly the chunks stored in it",
 "In every finished shard, the trailing index has one (offset, size) pair per slot: for each chunk written to the shard the pair at that chunk's slot delimits exactly that chunk's stored bytes, every other pair is the all-ones missing marker, the stored byte ranges are disjoint and gap-free from offset zero, and the index directly follows the last chunk. A new shard starts with an empty index at offset zero.",
 ["histories","inputs","configurations"],"every geometry and shard shape (including several append-steps per shard and ragged shards), compressed chunk sizes, every number of write-outs",
 "Tests only compare file sizes of shards; no test reads the index, and multi-step shards need histories.",
 ["zarrv3.array.writer.cpp","zarrv3.array.writer.hh"],[("ZarrV3ArrayWriter::flush_impl_",S+"zarrv3.array.writer.cpp")],
 [("shard_tables_, shard_file_offsets_","index under construction and bytes already in each shard",S+"zarrv3.array.writer.hh")],["bytes of shard files"])
p("C06","Each chunk is stored once, as configured, under its own key",
 "In version 2 each write-out stores each buffered chunk, whole and unmodified, as its own object. Chunks are compressed if and only if compression is configured, with exactly the configured codec, level and shuffle mode and the pixel size as type size, and each chunk is compressed exactly once per write-out; without compression the raw bytes are stored.",
 ["inputs","configurations"],"every chunk count and content, every compression setting",
 "Tests write zeros and compare file sizes for one setting.",
 ["zarrv2.array.writer.cpp","array.writer.cpp","blosc.compression.params.cpp","zarr.stream.cpp"],
 [("ZarrV2ArrayWriter::flush_impl_",S+"zarrv2.array.writer.cpp"),("compress_buffers_",S+"array.writer.cpp"),("blosc_codec_to_string",S+"blosc.compression.params.cpp")],[],["bytes of chunk files"])
p("C07","Array metadata describes the data that was written",
 "The array metadata written for every level states the number of append-dimension elements covered by the frames written so far (rounded up), the configured sizes of all other dimensions, the chunk (and shard) shape, the data type and byte order, and the compressor configuration actually used, in the layout of the Zarr version in use.",
 ["inputs","configurations","histories"],"every geometry, data type, compression setting, Zarr version and number of frames",
 "Tests check one data type and one shape per version.",
 ["zarrv2.array.writer.cpp","zarrv3.array.writer.cpp"],[("write_array_metadata_ / sample_type_to_dtype",S+"zarrv2.array.writer.cpp, "+S+"zarrv3.array.writer.cpp")],[],[".zarray / *.array.json"])
p("C08","Appended bytes become frames in order, however calls split them",
 "The sequence of frames stored is exactly the concatenation of all appended bytes cut into frame-sized pieces: it does not depend on how the bytes are divided among append calls, no byte is skipped, repeated or read beyond the supplied length, and every completed frame also enters the multiscale pyramid. On success the reported byte count equals the number of bytes supplied.",
 ["histories","inputs"],"every sequence of append calls with arbitrary lengths (less than, equal to, or many times a frame, and crossing frame boundaries)",
 "Tests append whole frames only.",
 ["zarr.stream.cpp","acquire.zarr.cpp"],[("ZarrStream_s::append",S+"zarr.stream.cpp"),("ZarrStream_append",S+"acquire.zarr.cpp")],[("frame_buffer_, frame_buffer_offset_","bytes of the frame begun but not completed",S+"zarr.stream.hh")],["bytes_out; frames in the store"])
p("C09","Downsampled pixels are local means",
 "Each pixel of the next lower resolution is the mean (truncated for integer types) of the 2x2 block it covers, with the last row or column repeated when the height or width is odd, and pairs of consecutive frames are averaged pixelwise (truncated for integer types); no pixel outside the source is read and none outside the result is written. Integer results are exact, without wrap-around, for pixels of magnitude up to 2^51 (larger 64-bit values are averaged in double precision).",
 ["inputs","configurations"],"every frame width and height, every data type, every pixel value (integers up to 2^51 in magnitude)",
 "No unit test covers the scaling functions; integration tests use one even-sized zero image.",
 ["zarr.stream.cpp"],[("scale_image / average_two_frames / write_multiscale_frames_",S+"zarr.stream.cpp")],[("scaled_frames_","frame of each level waiting for its partner",S+"zarr.stream.hh")],["pixels in the lower-resolution arrays"])
p("C10","The resolution pyramid is consistent and finite",
 "Each lower-resolution level halves (rounding up) every non-channel dimension, keeps channel dimensions, data type, compression and location, never has a chunk or shard larger than the level above, and expects frames of exactly the size that downsampling a frame of the level above yields. Building the pyramid always terminates, stopping at the first level one of whose chunks is smaller than at the level above or at which no non-channel dimension is left to shrink.",
 ["inputs","configurations"],"every geometry, including chunk sizes of 1 and dimensions of size 1",
 "One test walks one geometry.",
 ["array.writer.cpp","zarr.stream.cpp"],[("downsample",S+"array.writer.cpp"),("create_writers_",S+"zarr.stream.cpp")],[],["number of levels; shapes in the lower-resolution metadata"])
p("C11","Settings are accepted exactly when valid, never crashing",
 "Creating a stream accepts its settings only if the version, data type, dimension count (at least 3), spatial last two dimensions, dimension names, types, array/chunk/shard sizes, compressor, codec, level and shuffle are in range, and it rejects everything else with a null stream; missing (null) strings are rejected, not dereferenced. No accepted setting is altered other than by trimming surrounding whitespace of strings.",
 ["inputs","configurations"],"every settings structure, including null pointers, out-of-range enum values and extreme sizes",
 "create-stream tries one bad and one good structure.",
 ["zarr.stream.cpp","zarr.common.cpp","acquire.zarr.cpp"],[("validate_settings / validate_dimension / validate_compression_settings / validate_s3_settings / commit_settings_",S+"zarr.stream.cpp"),("trim / is_empty_string",S+"zarr.common.cpp")],[],["return value of ZarrStream_create"])
p("C12","File sinks store the given bytes at the given offset, or fail",
 "A write to a file sink or to the vectorized file writer that reports success, followed by a successful flush or finalization of the sink, has put exactly the given bytes, in order, at exactly the given offset, for every 64-bit offset, and changed no other byte of the file; a write, open or flush that did not reach the file is reported as failure. Sizes aligned for vectorized writing are the smallest multiple of the page size not below the request.",
 ["inputs","fault_sequences"],"every offset and length, every number of buffers, every I/O failure",
 "Tests write one small file near offset zero and inject no failure.",
 ["file.sink.cpp","sink.cpp","vectorized.file.writer.cpp"],[("FileSink::write / flush_",S+"file.sink.cpp"),("finalize_sink",S+"sink.cpp"),("write_vectors / align_to_page_",S+"vectorized.file.writer.cpp")],[],["file content; return values"])
p("C13","S3 objects are assembled from exactly the bytes written",
 "For any sequence of in-order writes to an S3 sink followed by finalization, the object uploaded is the concatenation of the written bytes: each full part is uploaded once with consecutive part numbers starting at 1, only the last part may be short, small objects use a single put, and nothing is read or written outside the part buffer. Any failed upload is reported as failure, and a write that starts before data already uploaded or reaches beyond the part being assembled is refused.",
 ["histories","inputs","fault_sequences"],"every sequence of write sizes and offsets (including exact multiples of the part size), every upload failure",
 "S3 tests need a server and two fixed sizes.",
 ["s3.sink.cpp","s3.sink.hh"],[("S3Sink::write / flush_ / flush_part_ / put_object_ / finalize_multipart_upload_",S+"s3.sink.cpp")],[("nbytes_buffered_, nbytes_flushed_, multipart_upload_","progress of the object",S+"s3.sink.hh")],["requests made to the S3 client; the object"])
p("C14","Storage keys enumerate the chunk or shard grid in C-order",
 "For every geometry, the data objects created for an append-step are exactly one per chunk (version 2) or shard (version 3), the i-th having the key that appends to the base path the C-order grid coordinates of index i over the non-append dimensions, separated by slashes; keys are pairwise distinct. The base path names the level and append-step as the Zarr version prescribes.",
 ["inputs","configurations"],"every number of dimensions, every grid size, base path, level and append-step, both stores (filesystem, S3)",
 "Tests enumerate one geometry.",
 ["sink.creator.cpp","array.writer.cpp"],[("make_data_sink_paths_ / make_files_ / make_s3_objects_",S+"sink.creator.cpp"),("make_data_sinks_ / make_metadata_sink_",S+"array.writer.cpp")],[],["paths of files / object keys"])
p("C15","Every accepted job runs exactly once and failures are reported",
 "A job is accepted unless the pool has been stopped; each accepted job is removed from the queue once and run exactly once, in order of acceptance, outside the lock, and a job that fails is reported to the error handler exactly once with its message. Stopping lets queued jobs finish, is final and idempotent; no job is dropped except on destruction without a stop.",
 ["schedules","histories"],"every interleaving of pushes, workers and stop, decided by monitor invariants over each critical section",
 "One test pushes a single job.",
 ["thread.pool.cpp","thread.pool.hh"],[("push_job / pop_from_job_queue_ / should_stop_ / process_tasks_ / await_stop",S+"thread.pool.cpp")],[("jobs_, is_accepting_jobs_","queue and stop flag guarded by jobs_mutex_",S+"thread.pool.hh")],["which jobs ran; error handler calls"])
p("C16","Store-level metadata is complete and matches the pyramid",
 "For each Zarr version exactly the documented metadata objects are created and written at their documented keys. The OME multiscales metadata lists one axis per dimension in order with its name and type and a unit for the two spatial axes, and one dataset per resolution level with path equal to the level number and scale 2^level in the append and spatial axes and 1 elsewhere; custom metadata is stored as given, absent or empty custom metadata as an empty JSON object; the version 2 level-0 attributes are an empty JSON object unless they hold the multiscales metadata.",
 ["inputs","configurations"],"every dimension list, number of levels, version and custom metadata",
 "Integration tests compare one configuration and are not buildable here.",
 ["zarr.stream.cpp","sink.creator.cpp"],[("write_base_metadata_ / write_group_metadata_ / write_external_metadata_ / make_multiscale_metadata_",S+"zarr.stream.cpp"),("make_metadata_sink_paths_",S+"sink.creator.cpp")],[],[".zattrs, .zgroup, acquire.json, zarr.json, meta/root.group.json"])
p("C17","The C API is total: codes, log levels and array allocation",
 "Every status code has its own message and every other value yields the unknown-error message; setting a valid log level succeeds and is what is read back, any other value is rejected and changes nothing. Allocating a dimension array succeeds exactly for a non-null settings structure and at least 3 dimensions, replaces and frees any previous array, and freeing resets pointer and count; null arguments to any call are reported as invalid, not dereferenced.",
 ["inputs","histories"],"every argument value including out-of-range enum values and null pointers, every sequence of calls",
 "No test calls these with invalid values.",
 ["acquire.zarr.cpp","src/logger/logger.cpp"],[("Zarr_set_log_level / Zarr_get_log_level / Zarr_get_status_message / ZarrStreamSettings_*_dimension_array / ZarrStream_append",S+"acquire.zarr.cpp"),("Logger::set_log_level","src/logger/logger.cpp")],[],["return values"])
p("C18","S3 connections are never lost or shared",
 "Every connection taken from the pool is handed to one user at a time and given back on every path, including when the S3 operation fails or throws, so the number of connections in the pool after an operation equals the number before it.",
 ["histories","fault_sequences"],"every S3 operation and every failure of it",
 "Needs failing servers; tests never fail an operation.",
 ["s3.sink.cpp","sink.creator.cpp","s3.connection.cpp"],[("get_connection / return_connection",S+"s3.connection.cpp"),("put_object_ / flush_part_ / create_multipart_upload_ / finalize_multipart_upload_",S+"s3.sink.cpp"),("bucket_exists_",S+"sink.creator.cpp")],[("connections_","idle connections",S+"s3.connection.hh")],["pool size; hang of later operations"])
p("C19","Background jobs finish before their caller goes on",
 "Each parallel operation (creating directories or files, compressing, writing chunks and shards) waits for all of its jobs: every job signals completion exactly once on every path, including failure, after its last access to the caller's data, no exception leaves a job, and the result reported to the caller reflects every job's outcome where the operation promises one.",
 ["schedules","fault_sequences"],"every job outcome and every interleaving of jobs with the waiting caller (by ownership transfer at the completion signal)",
 "Tests see no failures and cannot force the window between signalling and returning.",
 ["sink.creator.cpp","array.writer.cpp","zarrv2.array.writer.cpp","zarrv3.array.writer.cpp"],[("make_dirs_ / make_files_",S+"sink.creator.cpp"),("compress_buffers_",S+"array.writer.cpp"),("flush_impl_",S+"zarrv2.array.writer.cpp, "+S+"zarrv3.array.writer.cpp")],[],["return value of the operation; hangs; use of dead stack memory"])
p("C20","A crash leaves readable data",
 "If the process is killed at any point during streaming, every chunk or shard reported complete before the kill can be read back from the store.",
 ["crash_points"],"every point at which the process or machine may stop",
 "No test kills the process.",
 ["array.writer.cpp","file.sink.cpp"],[("flush_ / rollover_",S+"array.writer.cpp")],[],["store after a kill"])
p("C21","A failed background write is reported by the next append",
 "After a background job has failed, the next append call fails instead of silently continuing, under every interleaving of the worker that reports and the caller that appends.",
 ["schedules","fault_sequences"],"every interleaving of error reporting with append",
 "Tests inject no failures.",
 ["zarr.stream.cpp","thread.pool.cpp"],[("set_error_ / append",S+"zarr.stream.cpp")],[("error_","last reported error",S+"zarr.stream.hh")],["status of ZarrStream_append"])
p("C22","The Python API streams the same bytes as the C API",
 "Settings read back from the Python objects equal those set, and appending a NumPy array of any shape and memory layout streams its elements in C-order.",
 ["inputs","configurations"],"every NumPy array shape, stride and dtype; every settings object",
 "Python tests use contiguous arrays and are not run here.",
 ["python/acquire-zarr-py.cpp"],[("PyZarrStream::append","python/acquire-zarr-py.cpp")],[],["store content"])
for q in P: assert len(q['title'])<=80,(q['id'],len(q['title']))
open('/verif/properties.jsonl','w').write(''.join(json.dumps(q)+'\n' for q in P))
# validate
import sys
