"""Writes /verif/MANIFEST.json from the check modules that exist."""
import ast, json, pathlib
here = pathlib.Path(__file__).resolve().parent.parent
TECH = {
 'C01': 'online handshake monitors over random configurations, peers and schedules, an independent TLS 1.3 reference peer and OpenSSL',
 'C02': 'oracle recomputing the negotiation from the configurations, compared with the decrypted wire and both endpoints',
 'C03': 'stream conservation/immediacy monitor over randomized writes, layouts, padding and segmentation',
 'C04': 'fault injection by record position with a prefix/no-acceptance monitor',
 'C05': 'impostor and legitimate server workload with an acceptance monitor',
 'C06': 'revocation fault workload with an acceptance monitor and an independent OCSP/CRL issuer',
 'C07': 'structure-aware fuzzing at every state with exception, alert, CPU and memory monitors',
 'C08': 'message-order mutation workload judged by an RFC 8446 state machine oracle',
 'C09': 'wire monitor: independent decryption and parsing of everything emitted',
 'C10': 'independent key-schedule recomputation over recorded transcripts, key log and log monitors',
 'C11': 'closure histories judged against an executable model of half-close',
 'C12': 'failure injection followed by hostile continuation, silence/terminality monitor',
 'C13': 'differential codec monitor against an independent encoder, with canonical and mutated inputs',
 'C14': 'differential monitor against independent implementations (cryptography, pure Python, OpenSSL) and invalid inputs',
 'C15': 'hooked AEAD monitor recording every (key, nonce), with limits lowered to be reachable',
 'C16': 'interleaved and threaded connections with freshness, aliasing and independence monitors',
 'C17': 'faulty sockets (partial sends, short reads, resets) with a stream conservation monitor',
 'C18': 'history checker of the cache against a sequential model, with a local HTTP responder and threads',
 'C19': 'heartbeat request workload with exact echo and leak monitors',
 'C20': 'retry mutation workload and transcript oracle',
 'C21': 'error-class table: raised error, wire alert and its protection compared with RFC 8446',
 'C23': 'hostile unauthenticated clients (reference peer, OpenSSL, siotls) with an acceptance monitor looking after every delivery',
 'C24': 'random configurations judged against an executable model of what can work, log monitor, snapshots across connections',
 'C25': 'the real client, in-process and as a command, on pretended systems (redirected files) against OpenSSL servers: monitors of what the server received, of the output and exit status; verifier oracle on the stores',
 'C26': 'random misuses of the API interleaved with real histories, state and output monitors around each call, byte-stream oracle over buffers of any layout',
 'C27': 'fault injection at every executed line (sys.monitoring) with sound and hostile reference peers: connection, stream and nonce monitors',
 'C28': 'metamorphic runs: the same scenario of a sound, faulty or hostile reference peer under many segmentations, outcome monitors compared',
 'C22': 'the real demo server and client as processes under hostile loopback clients, HTTP monitor',
}
NOTE = ('Held on the executions explored: no claim about inputs the workload never produced. Trusts the '
        'independent reference peer of lib/ref13.py (cross-checked with OpenSSL), the cryptography package and '
        'CPython; randomness is derived from VERIF_SEED except for the keys siotls draws itself.')
checks, na = [], []
for line in (here / 'properties.jsonl').read_text().splitlines():
    p = json.loads(line)
    f = here / 'checks' / f"{p['id'].lower()}.py"
    if not f.exists():
        na.append({'property': p['id'], 'reason': 'its check is not written yet'})
        continue
    level = 'exploration'
    for node in ast.parse(f.read_text()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Tuple):
            names = [getattr(e, 'id', None) for e in node.targets[0].elts]
            if 'LEVEL' in names:
                level = node.value.elts[names.index('LEVEL')].value
    checks.append({'property': p['id'], 'quick_cmd': f"python3 checks/run.py {p['id']} --quick",
                   'thorough_cmd': f"python3 checks/run.py {p['id']} --thorough",
                   'technique': 'runtime monitoring: ' + TECH[p['id']], 'level': level, 'level_note': NOTE})
doc = {'version': 1, 'setup_cmd': '/opt/venv/bin/python -B -c "import cryptography, ssl"',
       'checks': checks, 'not_applicable': na,
       'notes': 'No hooks in /repo: the monitors observe the public API, the wire, and wrap imported modules at run time.'}
(here / 'MANIFEST.json').write_text(json.dumps(doc, indent=1) + '\n')
