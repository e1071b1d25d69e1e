"""Writes known_findings.jsonl:  python3 tools/findings.py   (never run by a check)"""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ("C06", "590faae", "coincident source and microphone gave NaN responses with a directivity (0/0 in the incidence cosine)"),
 ("C07", "78aa85d", "'omnidirectional'-style spellings of the omni pattern demanded an orientation"),
 ("C10", "9349572", "simulating a DynamicScene dropped the orientations stored in it"),
 ("C11", "17ca001", "the diffuse tail ignored its start time when the length was given in samples"),
 ("C16", "d232db2", "integer room sizes truncated wall coefficients and image counts derived from them"),
 ("C16", "fb74a25", "integer centres and room sizes truncated array geometry and margins"),
 ("C16", "48bd946", "integer positions made the simulation run in integer arithmetic"),
 ("C24", "d6fb1de", "a single-step linear trajectory failed instead of returning the start point"),
 ("C22", "25863d2", "circular arrays with normal (-1, 0, 0) were NaN"),
 ("C13", "c8cd233", "NaN sampling rate, speed of sound and reverberation time were accepted"),
 ("C21", "d7c5fc1", "dynamic convolution silently dropped signals or responses when source counts mismatched"),
 ("C19", "0e6618f", "timestamps beyond the end of the signal raised an obscure error"),
 ("C36", "0e8e0e8", "get_logger('torchrirX') left the library namespace"),
 ("C36", "52e662d", "a second setup_logging call did not change the handler's level or format"),
 ("C23", "90a89b6", "margins leaving no space sampled positions outside the room or margins"),
 ("C23", "1a90add", "a height range given as one height (lo == hi) was ignored"),
 ("C26", "c9ef7fc", "a failed extraction left a partial dataset that later passed for complete"),
 ("C26", "effd29f", "a corrupt gzip stream (zlib.error) was not downloaded again"),
 ("C28", "b18a95c", "collating items of different data types truncated samples"),
 ("C33", "45f03cf", "channel-major audio with more than eight channels was written as if time-major"),
 ("C33", "a4a1294", "unnormalised wav values outside [-1, 1] were clipped"),
 ("C29", "ebefd38", "LibriSpeech utterances were listed in file-system order"),
 ("C37", "cb5006d", "'CUDA' and 'cuda:0' failed or bypassed the availability check"),
 ("C34", "4292aea", "the stated microphone spacing of large arrays was wrong (matrix-multiply distances)"),
 ("C31", "fdb0d41", "the mixture of a built scene could clip although its sources did not"),
 ("C30", "96a7c83", "a fixed array centre could put microphones outside the room"),
 ("C32", "6c22530", "with overwriting, invalid options were only rejected after the old dataset had been removed"),
 ("C31", "fc214b1", "scenes with as many samples as microphones were stored with swapped axes"),
 ("C26", "117e624", "the archive of an already extracted dataset was downloaded again when it was missing"),
 ("C38", "4249840", "temporary files stayed behind when adding sound to a video failed"),
 ("C40", "47609e3", "animations of three-dimensional scenes with source labels failed"),
]
with open(os.path.join(V, "known_findings.jsonl"), "w") as f:
    for p, c, what in FIXED:
        f.write(json.dumps(dict(property=p, id=f"{p}-{c}", status="fixed",
                                entry=f"fixed: property={p} {c} {what}", commit=c, what=what)) + "\n")
