#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one place where the properties are worded)."""
import json, os
ENC = "src/writer.rs"; CMP = "src/compress.rs"; LZ = "src/lz77.rs"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))

KNOB = "optional: --cfg deflate_sim makes the block length and output-buffer threshold tunable (smaller only), so rare boundaries are met in small runs"

p("C01", "Streaming compression is lossless for every call history",
  "Whatever sequence of write (any sizes, including empty), flush and reset calls an encoder (DEFLATE, zlib or gzip, any compression options) receives, and however the wrapped writer shortens, interrupts or transiently fails the bytes it is given, once finish or reset returns Ok the bytes the writer accepted are a standard-conforming stream that decodes to exactly the bytes accepted by write since the stream began, in order. A strict RFC 1951 decoder accepts the stream.",
  ["inputs", "histories", "fault_sequences", "configurations"],
  "all contents, options, call sequences and writer behaviours that eventually let the calls succeed",
  "Tests compress a handful of files, almost always through a Vec that never fails, with at most three flushes; window slides, block ends, flush points and writer hiccups are never combined.",
  [CMP, LZ, "src/input_buffer.rs", "src/chained_hash_table.rs", "src/matching.rs", "src/rle.rs", "src/huffman_lengths.rs", "src/length_encode.rs", "src/bitstream.rs", "src/stored_block.rs"],
  [("compress_data_dynamic_n", CMP), ("lz77_compress_block", LZ), ("InputBuffer::slide", "src/input_buffer.rs"), ("gen_huffman_lengths", "src/huffman_lengths.rs")],
  [("overlap / bytes_to_hash / match_state", "bytes of the next window already covered or pending between calls", LZ), ("current_block_input_bytes", "input bytes covered by the current block (start of a stored block)", LZ)],
  ["bytes accepted by the wrapped writer", "return values of write/flush/reset/finish"], KNOB)

p("C02", "write is exactly-once: Ok(n) takes n bytes, an error takes none",
  "A call to write that returns Ok(n) has taken exactly the first n bytes of its argument (n never exceeds the argument's length), and a call that returns an error, of any kind, has taken none of them. So a caller that retries after an error (as write_all does after Interrupted) neither duplicates nor loses a byte in the finished stream, and a retry made once the writer works again does take bytes (unless a reset that failed has already begun to end the stream).",
  ["fault_sequences", "histories"],
  "every placement of short writes, interrupted writes and failing writes of the wrapped writer relative to the caller's writes, flushes and resets",
  "No test has a writer that returns an error; the only non-Vec writer in the tests is used for a single flush of an empty stream.",
  [CMP, ENC],
  [("compress_data_dynamic_n (return values, Interrupted when the output buffer is full)", CMP), ("io::Write::write for the encoders", ENC)],
  [("output_buf_pos", "how much of the output buffer the writer has taken", "src/deflate_state.rs"), ("needs_flush", "a flush is only partly delivered", "src/deflate_state.rs")],
  ["return values of write", "decoded content"], KNOB)

p("C03", "The writer's behaviour never changes the bytes produced",
  "The sequence of bytes delivered to the wrapped writer is a function of the options, the data and the calls alone: short writes, interruptions and errors followed by a retry of the failed call change when bytes are delivered, never which bytes, how many, or in what order. The stream obtained through a misbehaving writer is byte for byte the stream obtained through a writer that accepts everything.",
  ["fault_sequences", "schedules"],
  "every schedule of partial acceptance, Interrupted and transient errors, compared with a fault-free execution of the same calls",
  "Every compression test uses a Vec as the writer; the partial-delivery bookkeeping is executed by one test that checks nothing but termination.",
  [CMP, ENC, "src/deflate_state.rs"],
  [("partial delivery through output_buf_pos", CMP), ("compress_until_done retry loop", ENC)],
  [("output_buf_pos", "resume point after a partial delivery", "src/deflate_state.rs")],
  ["bytes accepted by the wrapped writer"], KNOB)

p("C04", "Without flushes, output does not depend on how input is split",
  "For the same data and options, a stream written without intermediate flushes is the same sequence of bytes however the data was divided into write calls (including empty and one-byte writes) and whatever short or interrupted deliveries the writer made, and it equals the result of the corresponding one-shot function.",
  ["schedules", "histories", "configurations"],
  "every division of the data into write calls, every options value, interleaved with writer back-pressure that makes write stop part way",
  "One ignored-by-default test compares seven fixed chunk sizes for one text file and a Vec writer.",
  [LZ, "src/input_buffer.rs", CMP, ENC, "src/lib.rs"],
  [("NeedInput until a full window plus lookahead is buffered", LZ), ("InputBuffer::add_data / slide", "src/input_buffer.rs")],
  [("is_first_window / overlap", "where the next window starts", LZ)],
  ["bytes accepted by the wrapped writer", "deflate_bytes_conf and friends"], KNOB)

p("C05", "After a successful flush everything written is recoverable",
  "When flush returns Ok, the wrapped writer has accepted bytes from which a decoder recovers every byte previously accepted by write in this stream, with nothing more to come: the delivered bytes end on a byte boundary with the empty stored block (00 00 FF FF) that marks a sync point. This also holds when the flush succeeded only after earlier attempts failed, and the stream can be continued and finished normally afterwards.",
  ["crash_points", "histories", "fault_sequences"],
  "a crash right after any acknowledged flush, any number of flushes at any positions (also before the first write), any writer behaviour during the flush",
  "Two tests flush one text at fixed positions and only look at the final stream and four marker bytes; none decodes what the writer holds at the flush, none flushes through a failing writer.",
  [CMP, ENC, LZ],
  [("Flush::Sync handling: end block, empty stored block, needs_flush", CMP), ("sync handling of window position", LZ)],
  [("needs_flush", "sync data produced but not fully delivered", "src/deflate_state.rs"), ("was_synced", "first bytes after a sync still have to be hashed", LZ)],
  ["bytes accepted by the wrapped writer at the moment flush returns"], KNOB)

p("C06", "At every instant the writer holds a prefix of one valid stream",
  "If the process stops at any moment (also in the middle of a call, or after any call failed, including failed calls that were given up and the encoder dropped), the bytes the wrapped writer has accepted so far are a prefix of one well-formed stream: the container header first and once, then valid DEFLATE data that decodes to a prefix of the data handed to write, never to anything else. Continuing or retrying after an error extends that same stream; nothing is emitted twice or out of place.",
  ["crash_points", "fault_sequences", "histories"],
  "every crash point between two deliveries to the writer, every sequence of failed and abandoned calls before it",
  "Tests only look at streams after a successful finish; no test inspects intermediate writer contents or continues after an error.",
  [CMP, ENC, "src/deflate_state.rs"],
  [("output buffer kept with resume position on error", CMP), ("header written once", ENC), ("trailer delivery", ENC)],
  [("header_written / header", "whether the container header was queued", ENC)],
  ["every byte accepted by the wrapped writer, as it is accepted"], KNOB)

p("C07", "finish and reset acknowledge only one complete stream",
  "finish or reset returns Ok only when the writer has accepted exactly one complete stream: header once, a single final block, the container's trailer once and nothing after it, also when earlier flush or reset attempts failed or only partly succeeded. finish and reset hand back the very writer the stream went to, and after that (including when the encoder is dropped) nothing more is ever sent to it.",
  ["fault_sequences", "histories"],
  "every history of failing and retried flushes and resets before the successful finish or reset, every position of the failure inside header, body or trailer",
  "Tests finish only through writers that never fail, so partial trailers, retries and failed flushes before finish are never executed.",
  [ENC, CMP, "src/deflate_state.rs"],
  [("output_all / write_trailer", ENC), ("compress_until_done", ENC), ("DeflateState::reset", "src/deflate_state.rs")],
  [("is_last_block", "final block already produced", LZ)],
  ["writer returned by finish/reset", "bytes accepted by each writer"], KNOB)

p("C08", "Writer failures are reported, never swallowed or disguised",
  "flush, reset and finish return Ok only if everything they stand for was accepted by the writer; if the writer keeps failing, every one of them returns an error, write starts returning errors after a bounded amount of further data, and a call during which the writer reports an error other than Interrupted returns an error of that kind (WriteZero for a writer that accepts nothing). No failure of the writer makes the encoder panic, and no error is returned when the writer has not failed, other than Interrupted asking for a retry.",
  ["fault_sequences"],
  "every kind of writer error, transient or permanent, at every delivery",
  "No test has a writer that returns an error.",
  [CMP, ENC],
  [("? on every writer call", CMP), ("compress_until_done only absorbs Interrupted", ENC)],
  [], ["return values of every call, against what the writer reported"], KNOB)

p("C09", "Every call terminates with bounded work",
  "Every call on an encoder (write, flush, reset, finish, drop) returns after a number of writer calls bounded by the bytes it has to deliver, provided the writer makes progress; once writer faults stop, a retried operation completes. A writer that accepts nothing (Ok(0)) or fails permanently makes calls return an error; it never makes them loop forever.",
  ["fault_sequences", "histories"],
  "every writer behaviour including persistent zero-length acceptance and permanent errors, at every point of every call history",
  "One test checks that one flush of an empty stream terminates with a two-byte writer; nothing exercises writers that stop accepting.",
  [ENC, CMP],
  [("compress_until_done loop", ENC), ("Internal buffer full -> Interrupted", CMP)],
  [("needs_flush", "stops a flush from emitting block after block", "src/deflate_state.rs")],
  ["number of writer calls per encoder call", "progress per call"], KNOB)

p("C10", "Dropping an encoder completes its stream and is always safe",
  "Dropping an encoder that was not finished delivers the rest of the stream, container trailer included, when the writer works, and if finish, flush or reset failed before, the drop only continues the same stream where it stopped. Dropping never panics or hangs because the writer fails, and an encoder dropped while its thread is unwinding from a panic does not call the writer at all.",
  ["crash_points", "histories", "fault_sequences"],
  "a drop or a panic after every prefix of every call history, with every state of the writer",
  "No test checks what a dropped encoder delivered, drops one after an error, or drops one during a panic.",
  [ENC],
  [("impl Drop for the encoders", ENC)],
  [], ["bytes accepted by the wrapped writer", "process outcome"], KNOB)

p("C11", "A reset encoder behaves exactly like a new one",
  "After reset returns Ok, the encoder produces for any further calls exactly the bytes a newly created encoder with the same options produces for those calls (reset_with_builder: with the given gzip header; reset: with a blank one). Nothing of earlier streams (data, checksum, byte count, header, match history, flush state) influences the new stream, and the options are kept.",
  ["histories"],
  "every history before the reset (any data, flushes, failed and retried calls), every stream after it",
  "Two tests reset after writing one text file and compress the same file again; nothing covers resets after flushes, errors or different data.",
  [ENC, "src/deflate_state.rs", LZ, "src/chained_hash_table.rs"],
  [("DeflateState::reset", "src/deflate_state.rs"), ("LZ77State::reset", LZ), ("ChainedHashTable::reset", "src/chained_hash_table.rs")],
  [("hash chains, window state, checksums, header flags", "must all be as in a new encoder", "src/deflate_state.rs")],
  ["bytes accepted by the second writer, against a new encoder"], KNOB)

p("C12", "checksum() always describes exactly the accepted data",
  "At any moment, also right after calls that failed or took only part of their data, checksum() of a zlib encoder is the Adler-32, and of a gzip encoder the CRC-32, of exactly the bytes write has accepted since the stream began. It starts afresh after reset.",
  ["histories", "fault_sequences"],
  "every interleaving of accepted, partly accepted and refused writes, flushes and resets",
  "No test calls checksum(); trailers are only checked for streams written without any refused or partial write.",
  [ENC, "src/checksum.rs"],
  [("checksum update from the result of write", ENC)],
  [("checksum", "running checksum of accepted bytes", ENC)],
  ["checksum() after every call"], KNOB)

p("C13", "No call history makes an encoder panic",
  "With any options, any data, any sequence of write, flush, reset, finish, checksum and drop, and any errors from the writer, no encoder call panics or aborts, with or without debug assertions and overflow checks. A panic raised by the writer itself propagates to the caller unchanged, the encoder can still be dropped, and the process does not abort.",
  ["histories", "configurations", "fault_sequences", "inputs"],
  "all option values, data, histories and writer behaviours, in debug and in release arithmetic",
  "Past defects were assertion failures and overflows at particular sizes and flush points; tests pin those few cases only.",
  [CMP, LZ, ENC, "src/input_buffer.rs", "src/chained_hash_table.rs"],
  [("assertions on window and block bookkeeping", LZ), ("stored block position assertion", CMP)],
  [("current_block_input_bytes", "unsigned arithmetic on window positions", LZ)],
  ["outcome of every call"], KNOB)

p("C14", "Memory stays bounded whatever the stream length or writer",
  "The heap memory an encoder holds stays below a fixed limit (1 MiB plus the container header) however much data passes through it, however many flushes and resets it performs and however slow, stalled or failing its writer is. A write to an encoder whose writer accepts nothing stops taking data after a bounded amount.",
  ["histories", "fault_sequences"],
  "streams of any length and compressibility, writers that accept little or nothing for any time",
  "No test measures memory or has a stalled writer.",
  [CMP, "src/deflate_state.rs", "src/input_buffer.rs", "src/output_writer.rs"],
  [("output buffer threshold", CMP), ("output buffer cleared after delivery", CMP), ("fixed window buffer", "src/input_buffer.rs")],
  [("output buffer", "compressed data not yet accepted by the writer", "src/encoder_state.rs")],
  ["live heap bytes allocated inside encoder calls", "bytes accepted by write while the writer is stalled"])

p("C15", "Encoders do not influence one another",
  "Any number of encoders used at the same time (interleaved on one thread, on several threads, moved between threads, used from inside another encoder's writer, or one encoder writing into another), together with one-shot compressions in between, produce exactly the bytes each would have produced alone.",
  ["schedules"],
  "every interleaving of the calls, and of the writer calls inside them, of several encoders and threads",
  "Every test uses one encoder at a time on one thread.",
  [ENC, "src/deflate_state.rs", "src/lib.rs"],
  [("all state owned by the encoder value", "src/deflate_state.rs")],
  [], ["bytes accepted by each writer, against a solo run"])

p("C16", "Container header and trailer are exact, once, and in place",
  "Every zlib stream starts with a valid two-byte header (deflate, window of at most 32 KiB, correct check bits, no dictionary) and ends with the big-endian Adler-32 of its data; every gzip stream starts with exactly the header configured for it and ends with the little-endian CRC-32 and length modulo 2^32 of its data. This holds for every order of calls: flush, checksum or reset before the first write, empty streams, after failed and retried calls, and for each stream of a reset encoder separately.",
  ["histories", "fault_sequences", "configurations"],
  "every call order and writer behaviour around header and trailer, every gzip header configuration",
  "Tests cover one gzip comment and default zlib headers, always with a write as the first call and a writer that never fails.",
  [ENC, "src/zlib.rs", "src/checksum.rs"],
  [("check_write_header", ENC), ("write_trailer", ENC), ("add_fcheck", "src/zlib.rs")],
  [("header_written / header", "header still to be written", ENC)],
  ["first and last bytes accepted by the wrapped writer"])

p("C17", "Output never exceeds input by more than a small bound",
  "For every data, options and call history, a finished stream is longer than its input by at most 10 bytes per started 31744 input bytes, 12 bytes per flush and 16 bytes overall, plus container header and trailer. Incompressible stretches are stored, not expanded, wherever in the stream they occur.",
  ["inputs", "histories"],
  "all contents, especially changes between compressible and incompressible data at any position relative to blocks, windows and flushes",
  "Tests check the length of two tiny streams only.",
  ["src/huffman_lengths.rs", CMP, "src/stored_block.rs"],
  [("choice of the shortest block type", "src/huffman_lengths.rs"), ("write_stored_block", CMP)],
  [("current_block_input_bytes", "length used for the stored alternative", LZ)],
  ["length of the bytes accepted by the wrapped writer"])

p("C18", "Special match modes hold for the life of an encoder",
  "An encoder with run-length-only options never emits a back-reference with a distance other than 1, one with huffman-only options never emits a back-reference at all, and every encoder's back-references stay within the format limits (length 3 to 258, distance 1 to 32768, never before the start of the stream). This holds for every stream the encoder produces, across window changes, flushes, failed calls and resets.",
  ["histories", "configurations"],
  "all data and call histories for each mode",
  "Tests only check that one text round-trips in these modes, not what the stream contains, and never after a flush or reset.",
  [LZ, "src/rle.rs", "src/matching.rs", "src/compression_options.rs", "src/chained_hash_table.rs"],
  [("process_chunk mode dispatch", LZ), ("hash chain limit check", "src/matching.rs")],
  [("max_hash_checks / matching_type", "mode kept in the state across reset", LZ)],
  ["back-references found while decoding the accepted bytes"], KNOB)

p("C19", "One-shot functions are lossless for every input",
  "For every byte slice and every options value, the result of each one-shot function (deflate, zlib, gzip) decodes to exactly that slice.",
  ["inputs"], "all byte slices and options",
  "Tests sample some files and short strings.",
  ["src/lib.rs", CMP, LZ], [("compress_data_dynamic", "src/lib.rs")], [], ["returned Vec"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
