PKI = "TLA+ spec Pki.tla model-checked with TLC; every behaviour it emits is concretised (real RSA/CMS/ASN.1 objects) and replayed on validator/pki"
PKIN = ("Exhaustive over single faults (about 80 kinds at every object) x file orders x strictness in two hierarchies, sampled (quick) or exhaustive (thorough) over pairs, sampled triples; "
        "trusts Go's crypto and the harness's object builder. ")
NOTES.update({
 "V01": (PKI, PKIN + "Verdict: no object with a broken signature chain contributes."),
 "V02": (PKI, PKIN + "Windows at one-second distance from the configured validation time, which is itself shifted by +-400 days."),
 "V03": (PKI, PKIN + "All places of the revoked certificate and of the CRL relative to it."),
 "V04": (PKI, PKIN + "Over-claims, inherit and ranges per level."),
 "V05": (PKI, PKIN + "Missing, unreadable, wrong-hash, unlisted files and stale manifests under each strictness setting."),
 "V06": (PKI, PKIN + "Everything sound must be used; one known finding (duplicate SubjectKeyIdentifier)."),
 "V07": (PKI, PKIN + "VRPs compared one by one with the ROA content."),
 "V08": (PKI, PKIN + "A crash or hang in any behaviour is a violation."),
})
NOTES.update({
 "L01": ("TLA+ spec Ov.tla (RFC 6811 as sets of covering and matching VRPs) enumerated by TLC; every VRP set and route replayed on ov.Validator", "Exhaustive on small prefix trees, embedded at several depths of both families; sampled larger sets."),
 "L02": ("TLA+ spec Ber.tla (BER reader and DER writer) run by TLC over byte strings; each string and result replayed on BER2DER", "Exhaustive over short strings of a structured alphabet, random trees beyond; deep nesting and long lengths by the harness."),
 "L03": ("TLA+ spec Tal.tla (RFC 8630 grammar) enumerated by TLC; documents replayed on the decoder, keys on the comparison", "Exhaustive over document shapes of the grammar and single malformations."),
 "L04": ("TLA+ spec Codec.tla (values, canonical wire forms, spans) enumerated by TLC; replayed through encoders and decoders", "Exhaustive over single values of boundary pools, sampled lists; IPv4-mapped IPv6 excluded (net.IP cannot tell them apart)."),
})
NOTES.update({
 "V04": ("TLA+ specs Resources.tla (chains of resource sets as ranges over a small line, inherit, empty) and Pki.tla enumerated by TLC; every chain is concretised with canonical and non-canonical encodings and replayed on validator/pki",
         "Exhaustive over chains trust anchor/CA/CA/end entity over 4 points (3 for AS numbers), embedded at prefix and number boundaries of both families; over-claims in Pki.tla hierarchies."),
 "S01": ("TLA+ spec Rrdp.tla (publisher history, client state, one fault anywhere in an attempt) model-checked; every attempt replayed on RRDPSystem.FetchRRDP, in memory and over loopback HTTP",
         "Exhaustive for 2 objects, 3 publisher steps, 2 sessions, one earlier failed attempt; document faults concretised in about 20 forms."),
 "S02": ("TLA+ spec Rrdp.tla model-checked for convergence; every attempt replayed on RRDPSystem.FetchRRDP and its store compared",
         "Exhaustive for 2 objects, 3 publisher steps, 2 sessions, one earlier failed attempt. Assumes a (session, serial) pair names one content."),
})

OCTO = "TLA+ spec Octo.tla (rounds of RRDP, trust anchor, rsync synchronisation and validation over a cache, restarts and kills, an environment deciding every attempt) checked with TLC; its behaviours are replayed on the octorpki process against publishers that answer as they say"
OCTON = ("Model: exhaustive for one repository, simulated (seeded) up to 5 repositories and 2 trust anchors, 6 rounds, 2 runs. Every behaviour emitted runs against the real process with real objects; "
         "the harness is the HTTP publishers, the rsync client and the CT log. ")
NOTES.update({
 "S04": (OCTO, OCTON + "Every attempt of every round must be the one the specification has, and no other."),
 "S05": (OCTO, OCTON + "Locators of up to 3 URIs, bad certificates of 6 kinds."),
 "S06": (OCTO, OCTON + "Kills at every attempt, at once or some ms later, damaged state files; then the output of a faultless run on that cache is compared with that of a fresh run."),
 "O01": (OCTO, OCTON + "All endpoints are read while the first attempt of each round is held, and the list is polled all the time."),
 "O02": (OCTO, OCTON + "Iteration limits 1 to 32; rounds, output and the end of the process compared."),
 "O03": (OCTO, OCTON + "Lists compared entry by entry, with duplicates across anchors, filter on and off."),
 "O04": (OCTO, OCTON + "Both signatures, times and validity of every list written, served or polled."),
 "O05": (OCTO, OCTON + "Conditional requests with current, earlier and altered tags in every round; lifetimes."),
 "O06": (OCTO, OCTON + "Inventory and information endpoints compared field by field with the round."),
 "T01": (OCTO, OCTON + "Chains submitted after every round compared with those of the accepted objects."),
})
NOTES["S01"] = (NOTES["S01"][0] + "; Octo.tla on the daemon's state file", NOTES["S01"][1])
NOTES["S02"] = (NOTES["S02"][0] + "; Octo.tla on the daemon", NOTES["S02"][1])

NOTES["S03"] = ("TLA+ spec Confine.tla (published URIs, links and CA publication points over a tree of hosts, cache and outside) model-checked, with weakened guards shown to violate it; every behaviour replayed on the octorpki process run as an unprivileged user in a scratch folder",
    "Exhaustive over URIs of up to 4 segments of a hostile alphabet, link targets and certificate URIs; the whole scratch tree is compared before and after. Relies on rsync's --safe-links for what rsync itself writes.")
NOTES["V08"] = (NOTES["V08"][0] + "; Confine.tla's hostile names and Ber.tla's byte strings likewise", NOTES["V08"][1])

DISK = "; the worlds also as files through the localrpki and octorpki programs"
for _p in ("V01", "V02", "V03", "V05", "V06", "V08", "V04"):
    NOTES[_p] = (NOTES[_p][0] + DISK, NOTES[_p][1])
PUB = "; TLA+ spec Publish.tla (published list as a function of the ROAs, filter and anchors) enumerated by TLC and replayed through localrpki and octorpki"
NOTES["V07"] = (NOTES["V07"][0] + DISK + PUB, NOTES["V07"][1] + "Publish.tla: all pairs of 60 ROA entries (boundary ASNs, lengths, maximum lengths, both families, IPv4-mapped) sampled (quick) or all (thorough), random ROAs of up to 4 entries.")
NOTES["O03"] = (NOTES["O03"][0] + PUB, NOTES["O03"][1] + "Publish.tla: pairs of ROAs across anchors, sampled (quick) or all (thorough).")
NOTES["O07"] = (OCTO, OCTON + "The metrics document is read in every round and compared with the history.")
NOTES["T02"] = ("TLA+ spec Ct.tla (threads, bounded channel, log answers, the end of the program) checked with TLC, which refutes the design the code had; every combination of threads and answers it emits, and worlds of Pki.tla, are replayed through the ctrpki program against a log",
    "Exhaustive up to 4 chains and 2 (thorough: 3) threads in the model; hierarchies of Pki.tla with up to 20 chains.")
COR = "; TLA+ spec Corrupt.tla (grammar of the objects, structural damage at every node, what may be lost) enumerated by TLC and replayed on validator/pki, localrpki and octorpki"
NOTES["V08"] = (NOTES["V08"][0] + COR, NOTES["V08"][1] + "Corrupt.tla: 41 000 single damages (a third of them in quick), before and after signing, sampled pairs.")
XML = "; TLA+ spec Xml.tla (grammar of RRDP documents, equivalent spellings and damage of every attribute, element and text, and what each means to the client) enumerated by TLC and replayed on FetchRRDP"
for _p in ("S01", "S02", "V08"):
    NOTES[_p] = (NOTES[_p][0] + XML, NOTES[_p][1] + " Xml.tla: every single change (1450), from five states of the client, and sampled pairs.")
NOTES["L05"] = ("TLA+ spec Sign.tla (parts of signed objects, who signs what, recombination) enumerated by TLC; every object is made with validator/lib and judged by its decoders and, sampled, by OpenSSL",
    "Exhaustive over recombinations of two objects of each kind; contents, sizes, numbers and times drawn from boundary values by seed. CRLs: 40 per run.")
NOTES["L06"] = ("TLA+ spec Msg.tla (messages, spellings, damage) enumerated by TLC; every message is written, carried as a signed object, and read with ca",
    "Exhaustive for messages of up to 2 (thorough: 4) elements over all spellings and damages.")
NOTES["L07"] = ("TLA+ spec MapDir.tla model-checked with TLC (invariants and the action property Local); every mapping it reaches is replayed on sync/lib with files on disk, and trees of Pki.tla spread over several directories are read by localrpki",
    "Mappings of up to 3 of 9 (thorough: 27) prefixes in every order x 24 URIs; spelling of entries and moved directories drawn by seed.")
NOTES["V09"] = ("TLA+ spec Dir.tla (extends Pki.tla: directories instead of manifests) model-checked with TLC; every behaviour it emits is laid out in directories and replayed on validator/pki over sync/lib, and through localrpki and octorpki",
    "Exhaustive over single faults x orders of names x strictness in two hierarchies, sampled pairs and triples; other files (empty, partial, links, directories, temporary) drawn by seed.")
NOTES["V10"] = ("TLA+ specs Api.tla (requests and listings with every end), Pki.tla and Dir.tla model-checked with TLC; their behaviours are replayed on sync/api over a real gRPC connection and on validator/pki fed by sync/api",
    "Exhaustive over single files and listings of up to 2 files, longer ones sampled; single faults of both hierarchies exhaustively, pairs sampled.")
