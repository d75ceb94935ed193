"""What decides each property: contracted functions, lemma modules, harness."""

TRUSTED = [
    "clang 18 AST of /repo's sources and the translation tools/cxx2why.py of that AST to WhyML (what it drops: see DESIGN.md, extraction)",
    "Why3 VC generation and split_vc, SMT-LIB drivers, soundness of z3 4.8.12, z3-new and cvc5 1.1.2",
    "contracts/cxx.mlw: models of C++ integer types, std::vector as sequences",
    "log calls and the text of exceptions have no effect on the property",
]

GEOM_REPO = ["streaming/zarr.dimension.cpp", "streaming/zarr.common.cpp", "logger/logger.cpp"]

ALL_REPO = ["streaming/*.cpp", "logger/logger.cpp"]
LINK = ["-lblosc"]

PROPS = {
    "C01": dict(
        proof=[dict(env="dimenv", fns=["ArrayDimensions::chunk_lattice_index", "ArrayDimensions::tile_group_offset", "ArrayDimensions::chunk_internal_offset",
                                       "ArrayDimensions::number_of_chunks_in_memory", "ArrayDimensions::bytes_per_chunk", "zarr::bytes_of_type", "zarr::bytes_of_frame",
                                       "zarr::chunks_along_dimension"])],
        lemmas=["dims.mlw"],
        replay=[dict(src="geom.cpp", mode="C01", repo=GEOM_REPO, budget=12)],
        assumptions=["geometry domain: >= 3 dimensions, chunk sizes > 0, array sizes > 0 except the append dimension, array_size + chunk_size < 2^32, products the code forms fit their types"],
    ),
    "C02": dict(
        proof=[dict(env="dimenv", fns=["ArrayDimensions::shard_index_for_chunk", "ArrayDimensions::shard_internal_index", "ArrayDimensions::number_of_shards",
                                       "ArrayDimensions::chunks_per_shard", "zarr::chunks_along_dimension", "zarr::shards_along_dimension"])],
        lemmas=["dims.mlw"],
        replay=[dict(src="geom.cpp", mode="C02", repo=GEOM_REPO, budget=12)],
        assumptions=["geometry domain: as C01, shard sizes > 0, number of chunks of an append-step and chunks per shard fit 32 bits"],
    ),
    "C17": dict(
        proof=[dict(env="capienv", fns=["Zarr_set_log_level", "Zarr_get_log_level", "Zarr_get_status_message", "ZarrStreamSettings_create_dimension_array",
                                        "ZarrStreamSettings_destroy_dimension_array", "ZarrStream_create", "ZarrStream_destroy", "ZarrStream_append"])],
        replay=[dict(src="capi.cpp", mode="C17", repo=ALL_REPO, link=LINK, budget=5)],
        assumptions=["a settings pointer points to a settings structure whose dimension pointer is null or an array created by the library"],
        trusted=["new[]/delete[] (contracts heap_new, heap_delete), ZarrStream_s construction, append and finalize_stream (contracts in capi.mlw)"],
    ),
    "C12": dict(
        proof=[dict(env="sinkenv", fns=["FileSink::write", "FileSink::flush_", "finalize_sink", "VectorizedFileWriter::write_vectors", "VectorizedFileWriter::align_to_page_"])],
        lemmas=["fileio.mlw"],
        replay=[dict(src="sink.cpp", mode="C12", repo=["streaming/file.sink.cpp", "streaming/vectorized.file.writer.cpp", "streaming/sink.cpp", "logger/logger.cpp"],
                     flags=["-fno-access-control"], budget=10)],
        assumptions=["a stream's bytes reach the operating system when flush succeeds; page sizes are powers of two"],
        trusted=["std::ofstream seekp/write/flush/fail and pwritev (contracts in fileio.mlw); the constructors, which open the file, are covered by the harness only",
                 "axiom and_align (confirmed on 64-bit vectors by setup_cmd)"],
    ),
    "C13": dict(
        proof=[dict(env="s3env", fns=["S3Sink::is_multipart_upload_", "S3Sink::create_multipart_upload_", "S3Sink::put_object_", "S3Sink::flush_part_", "S3Sink::finalize_multipart_upload_",
                                      "S3Sink::flush_", "S3Sink::write"])],
        lemmas=["s3.mlw"],
        replay=[dict(src="s3.cpp", mode="C13", repo=ALL_REPO, link=LINK, flags=["-fno-access-control"], budget=12)],
        assumptions=["objects have fewer than 2^32 parts of 5 MiB"],
        trusted=["S3Connection::put_object, create_multipart_object, upload_multipart_object_part, complete_multipart_object and the server behind them (contracts in s3.mlw); minio-cpp is not installed: a stand-in header is parsed"],
    ),
    "C15": dict(
        proof=[dict(env="poolenv", fns=["ThreadPool::ThreadPool", "ThreadPool::push_job", "ThreadPool::pop_from_job_queue_", "ThreadPool::should_stop_", "ThreadPool::process_tasks_", "ThreadPool::await_stop"])],
        lemmas=["pools.mlw"],
        replay=[dict(src="pool.cpp", mode="C15", repo=["streaming/thread.pool.cpp", "logger/logger.cpp"], flags=["-fno-access-control"], budget=12)],
        assumptions=["each method is proved as one thread runs it between acquisitions of the lock, at which other threads may have changed the queue within the monitor invariant (mutual exclusion by std::mutex is trusted)",
                     "jobs do not throw (C19)"],
        trusted=["std::mutex, std::condition_variable, std::thread (contracts in pools.mlw)"],
    ),
    "C18": dict(
        proof=[dict(env="poolenv", fns=["S3ConnectionPool::get_connection", "S3ConnectionPool::return_connection"], lemmas=["pools.mlw"]),
               dict(env="s3env", fns=["S3Sink::create_multipart_upload_", "S3Sink::put_object_", "S3Sink::flush_part_", "S3Sink::finalize_multipart_upload_", "S3Sink::flush_", "S3Sink::write",
                                      "SinkCreator::bucket_exists_"], lemmas=["s3.mlw"])],
        replay=[dict(src="s3.cpp", mode="C18", repo=ALL_REPO, link=LINK, flags=["-fno-access-control"], budget=12)],
        assumptions=["the pool outlives the operations that use it; S3 requests throw only what derives from std::exception"],
        trusted=["std::mutex, std::condition_variable (contracts in pools.mlw); the S3 requests (contracts in s3.mlw)",
                 "the bucket check inside ZarrStream's constructor, whose pool is destroyed when it throws, is not under contract"],
    ),
}

def stream(mode, **kw):
    return [dict(src="stream.cpp", mode=mode, repo=ALL_REPO, link=LINK, flags=["-fno-access-control"], budget=kw.pop("budget", 12), **kw)]


ARR_DOMAIN = ("geometry domain: as C01; a chunk has fewer than 2^63 bytes, an append-step fewer than 2^31 chunks; with compression a chunk has at most 2 GiB (Blosc's limit); "
              "for version 3 also shard sizes > 0 and the products of shard geometry fit 64 bits")
ARR_TRUST = ["jobs are run where they are pushed and the pool accepts them (C15); sinks, Blosc and the creation of sinks (contracts in arrays.mlw; C12, C13 for the sinks)"]

PROPS.update({
    "C03": dict(
        proof=[dict(env="arrenv", fns=["ArrayWriter::write_frame_to_chunks_", "ArrayWriter::make_buffers_"], lemmas=["dims.mlw", "writer.mlw"])],
        replay=stream("C03"), assumptions=[ARR_DOMAIN], trusted=[]),
    "C04": dict(
        proof=[dict(env="arrenv", fns=["ArrayWriter::should_flush_", "ZarrV2ArrayWriter::should_rollover_", "ZarrV3ArrayWriter::should_rollover_",
                                       "ArrayWriter::close_sinks_", "ArrayWriter::rollover_", "ArrayWriter::flush_", "ArrayWriter::write_frame"], lemmas=["arrays.mlw"])],
        replay=stream("C04"), assumptions=[ARR_DOMAIN], trusted=ARR_TRUST),
    "C05": dict(
        proof=[dict(env="arrenv", fns=["ZarrV3ArrayWriter::flush_impl_", "ZarrV3ArrayWriter::should_rollover_"], lemmas=["arrays.mlw"])],
        replay=stream("C05"), assumptions=[ARR_DOMAIN], trusted=ARR_TRUST),
    "C06": dict(
        proof=[dict(env="arrenv", fns=["ArrayWriter::compress_buffers_", "ZarrV2ArrayWriter::flush_impl_"], lemmas=["arrays.mlw"]),
               dict(env="pyrenv", fns=["zarr::blosc_codec_to_string", "ZarrStream_s::create_writers_"], lemmas=["pyramid.mlw"])],
        replay=stream("C06"), assumptions=[ARR_DOMAIN], trusted=ARR_TRUST),
    "C08": dict(
        proof=[dict(env="streamenv", fns=["ZarrStream_s::append"], lemmas=["stream.mlw"])],
        replay=stream("C08"),
        assumptions=["the frame buffer has the frame size of the level-0 writer (set by the constructor), and the caller's buffer has the nbytes it states"],
        trusted=["a writer takes whole frames of its size (proved as ArrayWriter::write_frame in C04)"]),
    "C09": dict(
        proof=[dict(env="pixenv", fns=["%s<%s>" % (f, t) for f in ("scale_image", "average_two_frames")
                                       for t in ("unsigned char", "unsigned short", "unsigned int", "unsigned long", "signed char", "short", "int", "long")],
                    lemmas=["pixels.mlw"])],
        replay=stream("C09"),
        assumptions=["an image has at most 2^48 bytes; exactness is claimed for pixel magnitudes up to 2^51 (the mean of four is formed in double)",
                     "float32 and float64 instantiations and the driving loop write_multiscale_frames_ are monitored by the harness only (bounded)"],
        trusted=["IEEE double arithmetic is exact on quarter-integers of magnitude up to 2^51, and a conversion to an integer type truncates (module Doubles in pixels.mlw)"]),
    "C07": dict(
        proof=[dict(env="metaenv", fns=["v2::sample_type_to_dtype", "v3::sample_type_to_dtype", "ZarrV2ArrayWriter::write_array_metadata_", "ZarrV3ArrayWriter::write_array_metadata_"], lemmas=["metadata.mlw"])],
        replay=stream("C07"),
        assumptions=[ARR_DOMAIN, "fewer than 2^63 frames", "braced JSON values mean what clang's AST says they mean (gcc may wrap a copy of a single json value in an array; the harness reads what the compiled library writes)"],
        trusted=ARR_TRUST + ["nlohmann::json: assignment, braced values and dump (contracts in json.mlw)"]),
    "C10": dict(
        proof=[dict(env="pyrenv", fns=["zarr::downsample", "ZarrStream_s::create_writers_"], lemmas=["pyramid.mlw"])],
        replay=stream("C10"),
        assumptions=["geometry domain: as C01"],
        trusted=["constructors of the array writers keep the configuration they are given; ArrayDimensions keeps the dimensions and data type it is given (contract new_dims)"]),
    "C11": dict(
        proof=[dict(env="streamenv", fns=["zarr::trim", "zarr::is_empty_string", "validate_s3_settings", "validate_filesystem_store_path", "validate_compression_settings",
                                          "validate_custom_metadata", "validate_dimension", "validate_settings", "ZarrStream_s::commit_settings_"], lemmas=["settings.mlw"])],
        replay=stream("C11"),
        assumptions=["C strings contain no embedded NUL; the dimensions pointer points to dimension_count entries, at most 2^31 - 1 of them"],
        trusted=["what std::filesystem says about a path, which texts nlohmann::json accepts, and std::find_if/erase/isspace (contracts in settings.mlw)"]),
    "C14": dict(
        proof=[dict(env="arrenv", fns=["ArrayWriter::make_data_sinks_", "ArrayWriter::make_metadata_sink_", "ZarrV2ArrayWriter::version_", "ZarrV3ArrayWriter::version_"], lemmas=["arrays.mlw"])],
        replay=stream("C14"), assumptions=[ARR_DOMAIN], trusted=ARR_TRUST),
    "C16": dict(
        proof=[dict(env="omeenv", fns=["dimension_type_to_string", "ZarrStream_s::make_multiscale_metadata_", "ZarrStream_s::write_base_metadata_", "ZarrStream_s::write_group_metadata_", "ZarrStream_s::write_external_metadata_"], lemmas=["json.mlw", "ome.mlw"])],
        replay=stream("C16"), assumptions=["JSON documents are values of contracts/json.mlw (the nlohmann interface used: index, push_back, braced lists, dump, parse)", "std::pow(2, i) is exact", "no NUL byte in a dimension name (c_str() is the name)"],
        trusted=["create_metadata_sinks_ leaves a sink under every name the version needs (precondition sinks_for); a missing name throws", "Sink::write puts its bytes at the offset when it answers true", "the text of the long prose literals under metadata/description is not compared"]),
    "C19": dict(
        proof=[dict(env="arrenv", fns=["ArrayWriter::compress_buffers_", "ZarrV2ArrayWriter::flush_impl_", "ZarrV3ArrayWriter::flush_impl_"], lemmas=[])],
        replay=[dict(src="jobs.cpp", mode="C19", repo=ALL_REPO, without=["file.sink.cpp"], link=LINK, flags=["-fno-access-control"], budget=12)],
        assumptions=[ARR_DOMAIN], trusted=ARR_TRUST),
})

LEVEL_NOTE = ("Every obligation generated from the contracted functions of the current tree is discharged for all inputs within the stated domain; "
              "trusted: the AST-to-WhyML translation, Why3 and the SMT solvers, the contracts listed as assumed in the evidence. "
              "A conformance harness also runs the real code on concrete inputs (bounded) to supply failing inputs.")

NOT_APPLICABLE = {
    "C20": "a crash point cuts through file-system calls of several threads; contracts on sequential functions have no crash semantics, and no verifier present gives C++ one; the store is buffered per append-step by design, so the ordering guarantee has no function to carry it",
    "C21": "a liveness/visibility relation between two threads over error_ flag timing; function contracts here are sequential, and no concurrency-aware deductive verifier for C++ is present",
    "C22": "pybind11 and Python headers are not installed, so the binding's translation unit cannot be compiled or its AST obtained",
}
