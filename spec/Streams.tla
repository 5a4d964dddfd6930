----------------------------------- MODULE Streams -----------------------------------
(***************************************************************************)
(* Isolation of streams.  A stream is a state (its three records); calls   *)
(* are made for streams on threads, and a stream's records may be saved,   *)
(* and restored to the same or another place in memory, at any time.       *)
(*                                                                         *)
(* The specification says only this: there is ONE function F from what a   *)
(* call is given (operation, input, records, noise seed) to what it        *)
(* leaves, and a call changes no other stream.  GenStreams enumerates      *)
(* schedules; TraceStreams requires every recorded call, in whatever       *)
(* schedule, thread or place it ran, to be an application of F.            *)
(***************************************************************************)
EXTENDS Integers, Sequences
\* One step of a schedule: the stream that advances, the thread it runs on, and what is done with its memory before:
\* "here" nothing, "move" continue at another place, "back" rewind to the last snapshot, "save" take a snapshot first.
Step(streams, threads) == [s : streams, th : threads, mem : {"here", "move", "back", "save"}]
=============================================================================
