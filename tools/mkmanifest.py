"""Writes MANIFEST.json from the table below."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C03': ('TLA+ (Vault.tla): TLC-enumerated transitions replayed + recorded traces validated', 'Every transition of the credential/session model up to the stated bound is executed on the real code, and random recorded histories are checked event by event by TLC; trusts the independent KDBX reader/writer and the abstraction of content to revisions.'),
 'C07': ('TLA+ (KPCore.tla): TLC-enumerated transitions replayed + recorded traces validated', 'Every enumerated state and operation of the small model is executed on the real code and compared; long random histories are validated by TLC against the full-state specification. Trusts the projection of the XML tree.'),
 'C08': ('TLA+ (KPCore.tla): TLC-enumerated transitions replayed + recorded traces validated', 'As C07, for fields; texts are tokens of real texts from a pool of hostile values.'),
 'C09': ('TLA+ (KPCore.tla): TLC-enumerated transitions replayed + recorded traces validated', 'As C07, for history snapshots.'),
 'C10': ('TLA+ (KPCore.tla): TLC-enumerated transitions replayed + recorded traces validated', 'As C07, for binaries and attachments.'),
 'C12': ('TLA+ (KPCore.tla): TLC-enumerated transitions replayed + recorded traces validated', 'As C07, for the recycle bin, from databases with and without one.'),
 'C15': ('TLA+ (KPCore.tla, Vault.tla): recorded traces with failing calls validated', 'Every failing call in recorded histories must leave the projected state, session and files as they were.'),
 'C17': ('TLA+ (Vault.tla): TLC-enumerated transitions replayed + recorded traces validated', 'As C03, for sessions, files, save-as and create_database.'),
 'C01': ('TLA+ (KPCore.tla, Kdbx.tla, Vault.tla): TLC-enumerated container configurations replayed + recorded edit/save/reopen traces validated', 'Every enumerated container configuration and block-boundary size is written by the real code and decoded by an independent reader; random edit histories with save and reopen are validated by TLC. Trusts the independent reader and the projection.'),
 'C02': ('TLA+ (SaveFS.tla): protocol model-checked; system-call traces of the real save, with a kill or fault injected at every operation, validated', 'All crash points and single faults of every recorded save are enumerated on the real code by an interposed libc; the model covers every protocol interleaving. Crash means process death, not loss of power.'),
 'C04': ('TLA+ (Kdbx.tla): fault classes enumerated by TLC and applied to real files; outcomes validated', 'Byte flips in every region, truncations and block edits of files of every configuration are opened by the real code and the outcome judged by the specification.'),
 'C05': ('TLA+ (KeyFile.tla): TLC-enumerated key file shapes replayed', 'The key rule is specified byte by byte; every enumerated shape plus random near misses is given to the real code and compared through databases locked with each candidate key.'),
 'C06': ('TLA+ (Kdbx.tla): TLC-enumerated container layouts replayed in both directions', 'Files of every layout are exchanged between the real code and an independent KDBX implementation and judged by the specification; trusts that implementation (checked against the fixtures of the repository).'),
 'C11': ('TLA+ (Search.tla): TLC-enumerated queries replayed on the real find_* functions', 'The specified result set of every query is computed by TLC and compared with the real result; contents and queries from small alphabets of hostile texts plus random databases.'),
 'C13': ('TLA+ (Deref.tla): TLC-enumerated reference graphs replayed', 'Every assignment of the chosen text shapes to the fields of 2 (3) entries, and random larger ones, dereferenced by the real code and compared with the specified value.'),
 'C14': ('TLA+ (Times.tla): TLC-enumerated instants, encodings and clock boundaries replayed under a controlled clock + recorded traces validated', 'The codec and calendar are specified digit by digit and model-checked for inversion; real setters, getters, files and expired are compared at enumerated boundary instants with the clock set by an interposed libc.'),
 'C16': ('TLA+ (Kdbx.tla, KPCore.tla): payload of saved files decoded independently and judged; protection transitions enumerated by TLC and replayed', 'Clear texts are searched in the decrypted payload of real files after random and enumerated histories.'),
 'C18': ('TLA+ (Times.tla, Vault.tla): TLC-enumerated dates, day counts and clock boundaries replayed under a controlled clock + recorded traces validated', 'As C14; recorded credential histories are validated for who may record the time.'),
 'C19': ('TLA+ (Kdbx.tla, Vault.tla): TLC-enumerated configurations and session transitions replayed', 'Reported parameters of every enumerated configuration are compared with those of the independent decoder.'),
 'C20': ('TLA+ (KPCore.tla): TLC-enumerated transitions replayed, with every way to the elements looked at before and after + recorded traces validated', 'Edits are made through objects obtained anew while older ones are read; what each way shows, the equalities and the parsed exports are compared with the specified state by TLC. Trusts the projection of the XML tree.'),
}
NA = {}
props = [json.loads(l)['id'] for l in open(ROOT + '/properties.jsonl')]
LEVEL = {}
m = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': [], 'not_applicable': []}
import sys
sys.path.insert(0, ROOT + '/lib')
have = open(ROOT + '/lib/main.py').read()
for p in props:
    if p in T and 'def %s(' % p.lower() in have:
        tech, note = T[p]
        m['checks'].append({'property': p, 'quick_cmd': 'bin/check ' + p, 'thorough_cmd': 'VERIF_TIER=thorough bin/check ' + p,
                            'evidence_file': 'evidence/%s.json' % p, 'technique': tech, 'level': LEVEL.get(p, 'model_checking'), 'level_note': note})
    else:
        m['not_applicable'].append({'property': p, 'reason': NA.get(p, 'specification under construction, not claimed yet')})
json.dump(m, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
