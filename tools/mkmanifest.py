#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table below and properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BFS = "explicit-state breadth-first model checking of the real server under a virtual clock"
ENUM = "bounded exhaustive enumeration of executions of the real code against a reference model"
FAULT = "exhaustive enumeration of fault points (environment answers) on the real code"
T = {
 "C01": (BFS, "model_checking", "all histories to depth 4 (thorough 5), every credential x every required scope set in every state; every tampered form of every credential kind"),
 "C02": (BFS, "model_checking", "8 lifespan configurations, all histories to depth 3 (thorough 4-5), every live credential probed around its expiry"),
 "C03": (BFS, "model_checking", "all scope lists to length 3 (thorough 4) x grants x allowed sets; refresh chains to depth 4 (thorough 6)"),
 "C04": (BFS, "model_checking", "all histories to depth 4/5 (thorough 5/7) from three starting points, replay after 0-29 refreshes"),
 "C05": (BFS, "model_checking", "all refresh sequences to depth 3/5 (thorough 4/7) with right and wrong clients, secrets and scopes; chains of 50"),
 "C06": (BFS, "model_checking", "all histories to depth 3/5 (thorough 4/6) with every revocation request by every client with every hint"),
 "C08": (BFS, "model_checking", "7 clients, all histories to depth 2/3 (thorough 3/4), every credential x every other client x every use"),
 "C11": (BFS, "model_checking", "all histories to depth 3/4 (thorough 5/6); every credential introspected with every hint and compared with an actual use"),
 "C07": (ENUM, "exploration", "6 clients x 8 uses x ~250 credential placements and near misses x 3 states, each refusal followed by use of all credentials"),
 "C09": (BFS, "model_checking", "all descent histories to the depth bound plus every near-miss user name and password in every placement"),
 "C10": (ENUM, "exploration", "full product of method, response type, client, near-miss redirect URI, scope, credentials, state and placement; every code x URI at exchange"),
 "C12": (BFS, "model_checking", "all histories to depth 2 (thorough 3); in every state every request derived from a valid one by one defect, and all of them in sequence"),
 "C14": (FAULT, "exploration", "every byte offset at which the random source can fail, for every grant and state, and every piece size"),
 "C15": (FAULT, "exploration", "every byte offset at which a body can break off and every position of every malformed escape, for every request"),
 "C16": (BFS, "model_checking", "all issuing histories to depth 3 (thorough 5) for 5 key lengths x 3 secrets; every bit of the random stream flipped, every value of its bytes"),
 "C17": (ENUM, "exploration", "all key lengths 0-40 and secret lengths 0-130, every bit flip, truncation, extension and recombination, all short strings, against an independent HMAC"),
 "C18": (ENUM, "exploration", "all strings to length 7 and all pairs of scope lists to length 4 against a set-based reference"),
 "C19": (ENUM, "exploration", "full product of present/absent fields and hostile values for every built request, read back from the wire"),
 "C20": (ENUM, "exploration", "all methods x bodies x queries x parameters x redirect URIs against a reference parser"),
 "C21": (ENUM, "exploration", "all combinations of optional fields x hostile values, every size around the limit, written and read back"),
 "C22": (ENUM, "exploration", "all targets x parameter sets x hostile values x placement, decoded by an independent recipient"),
 "C23": (ENUM, "exploration", "every error kind x field combinations x hostile values against the standard's table and an independent challenge parser"),
 "C26": (ENUM, "exploration", "all case variants and single edits of the scheme, all short headers, multiple headers, against a reference parser"),
 "C13": ("stateless model checking of thread schedules on the real code (controlled scheduler, preemption bound, race detector)", "model_checking", "every schedule of all ordered request pairs within 2 preemptions (thorough 3) and of selected triples within 1, at every lock, shared access and body read, against all sequential orders"),
 "C24": (BFS, "model_checking", "all histories to the depth bound; every response of every state checked for headers and searched for every secret and credential known so far"),
 "C28": (ENUM, "exploration", "every method x path x header x parameter combination of the menus at every endpoint, each followed by a served request"),
 "C25": (FAULT, "exploration", "every call x status x content type x body x limit, every byte at which the body ends or fails, every piece size, endless and missing bodies, transport failures, judged by an independent reading"),
 "C27": (FAULT, "exploration", "the real suite against conforming servers under all specifications, ~150 persistent bad servers, and every single wrong answer at every single request it makes"),
 "C29": (BFS, "model_checking", "all histories of client calls to depth 3/4 (thorough 4/5) through the real client, wire encoding and server; every credential introspected through the client in every state"),
 "C30": (BFS, "model_checking", "all histories to depth 2 (thorough 3); in every state ~20 requests x 200-480 irrelevant additions and circumstances, answer and resulting state compared"),
 "C31": (BFS, "model_checking", "all histories to depth 2 (thorough 3) x every operator change and pairs of them, then every client, user, scope and credential judged by a reference model"),
 "C32": (BFS, "model_checking", "every pair of histories to depth 2+2 (thorough 3+2) of two servers x every interleaving x 4 configurations, against each history served alone"),
 "C33": (ENUM, "exploration", "every method x query x body x content type x preset headers x scope x credential x header spelling, with a recording response writer and body"),
 "C34": ("stateless model checking of call sequences and thread schedules on the real code (controlled scheduler, race detector)", "model_checking", "every call of a menu of ~240 alone, after every other call with its result scribbled over, and next to every kind of call under every schedule within the bound, in child processes"),
 "C35": (FAULT, "exploration", "every valid, repeated and defective request in 4 states x failure at every byte of the answer x 8 errors x 2 kinds of writer x end of the context at every byte of the body and at every write"),
 "C36": (BFS, "model_checking", "all histories of requests and operator acts on the credential tables to depth 2 (thorough 3), every act (thorough: pair) on a rich state under 3 configurations; every use of every credential and the tables themselves judged by a reference model"),
}
NA = {}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T:
        t, l, n = T[i]
        checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": t, "level": l, "level_note": n})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "./run.sh setup",
     "hooks": {"guard": "none: /repo has no hooks",
               "enable": "nothing to enable; crypto/rand.Reader is replaced by mc/arand and time by testing/synctest, and C13 builds instrumented scratch copies through an overlay", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
