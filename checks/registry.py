"""What each check consists of."""
CHECKS = {}

def check(pid, **kw):
    CHECKS[pid] = kw

def cfgs(stem):
    return {"quick": stem + ".quick.cfg", "thorough": stem + ".thorough.cfg"}

check("P16",
  parts=[
    dict(kind="emit", name="data", area="memstore", mode="replay", module="MemStoreMC", cfg=cfgs("MemStoreMC_data"), min=1000),
    dict(kind="emit", name="life", area="memstore", mode="replay", module="MemStoreMC", cfg=cfgs("MemStoreMC_life"), min=1000,
         max={"quick": 60000}),
    dict(kind="trace", name="seqtrace", area="memstore", mode="seq", module="MemStoreTrace", cfg="MemStoreTrace.cfg",
         count={"quick": 400, "thorough": 2000}, batches={"quick": 1, "thorough": 6}),
  ],
  assumptions=["values and tags are compared as returned at call time; mutating a slice after passing it in is not exercised",
               "data operations through a handle whose store was closed are undefined and not exercised"])

check("P17",
  parts=[
    dict(kind="trace", name="lin", area="memstore", mode="conc", module="MemStoreLin", cfg="MemStoreLin.cfg", race=True,
         count={"quick": 1500, "thorough": 6000}, batches={"quick": 2, "thorough": 8}),
  ],
  assumptions=["schedules are those produced by the Go scheduler under load, not all schedules"])

check("P01",
  parts=[
    dict(kind="emit", name="one", area="sdjwt", mode="issue", module="SDJwt", cfg="SDJwt_a.cfg", min=2000, classes=("ok", "reject")),
    dict(kind="emit", name="two", area="sdjwt", mode="issue", module="SDJwt", cfg="SDJwt_b.cfg", min=5000, classes=("ok", "reject")),
    dict(kind="emit", name="long", area="sdjwt", mode="issue", module="SDJwt", cfg="SDJwt_d.cfg", min=1000, classes=("ok", "reject")),
    dict(kind="emit", name="registered", area="sdjwt", mode="registered", module="SDRegistered", cfg=cfgs("SDRegistered"), min=2000, classes=("ok", "reject"),
         max={"thorough": 100000}),
    dict(kind="emit", name="twofull", area="sdjwt", mode="issue", module="SDJwt", cfg="SDJwt_c.cfg", min=50000, classes=("ok", "reject"),
         tiers=("thorough",), max={"thorough": 150000}),
  ],
  assumptions=["digests are collision free and salts unpredictable (salts are checked to be distinct and at least 128 bits long)"])

check("P02",
  parts=[
    dict(kind="emit", name="tamper", area="sdjwt", mode="verify", module="SDVerify", cfg=cfgs("SDVerify"), min=20000, classes=("ok", "reject"),
         max={"thorough": 400000}),
  ],
  assumptions=["hash functions are collision free; disclosures are compared by their encoded string"])

check("P03",
  parts=[
    dict(kind="emit", name="policy", area="sdjwt", mode="policy", module="SDPolicy", cfg="SDPolicy.thorough.cfg", min=20000, classes=("ok", "reject"),
         max={"quick": 50000}),
  ],
  assumptions=["validity offsets keep a distance of at least 29 s from the leeway boundaries, so the run time of the check does not matter"])

check("P04",
  parts=[
    dict(kind="emit", name="proof", area="jwtproof", mode="prove", module="JwtProof", cfg=cfgs("JwtProof"), min=50000, classes=("ok", "reject", "either"),
         max={"thorough": 500000}),
  ],
  assumptions=["signature schemes are unforgeable"])

check("P05",
  parts=[
    dict(kind="emit", name="proof", area="ldproof", mode="ldproof", module="LDProof", cfg=cfgs("LDProof"), min=5000, classes=("ok", "reject"),
         max={"thorough": 150000}),
  ],
  assumptions=["signature schemes are unforgeable", "JSON-LD expansion and canonicalisation (piprate/json-gold) are the meaning of a document: members that no "
               "context defines carry no meaning unless strict validation is asked for"])

check("P06",
  parts=[
    dict(kind="emit", name="proof", area="diproof", mode="diproof", module="DIProof", cfg=cfgs("DIProof"), min=20000, classes=("ok", "reject"),
         max={"thorough": 200000}),
  ],
  assumptions=["signature schemes are unforgeable", "members of a proof that the library's proof model does not know carry no meaning",
               "canonicalisation (piprate/json-gold) is the meaning of a document"])


check("P07",
  parts=[
    dict(kind="emit", name="proof", area="cwtproof", mode="prove", module="CwtProof", cfg=cfgs("CwtProof"), min=20000, classes=("ok", "reject"),
         max={"quick": 80000}),
  ],
  assumptions=["signature schemes are unforgeable"])

check("P08",
  parts=[
    dict(kind="emit", name="parse", area="vcparse", mode="parse", module="VCParse", cfg=cfgs("VCParse"), min=5000, classes=("ok", "reject"),
         max={"thorough": 200000}),
  ],
  assumptions=["signature schemes are unforgeable", "ParseCredentialJSON takes an already decoded document and does not check embedded proofs (documented, relied on by the tests)"])

check("P10",
  parts=[
    dict(kind="emit", name="parse", area="vpparse", mode="parse", module="VPParse", cfg=cfgs("VPParse"), min=5000, classes=("ok", "reject"),
         max={"thorough": 200000}),
  ],
  assumptions=["signature schemes are unforgeable"])


check("P14",
  parts=[
    dict(kind="emit", name="check", area="statuslist", mode="check", module="StatusList", cfg=cfgs("StatusList"), min=5000,
         classes=("clear", "set", "unproven"), max={"thorough": 200000}),
  ],
  assumptions=["lists are served by an in-memory HTTP transport", "bits are numbered from the least significant one, as the code documents"])

check("P15",
  parts=[
    dict(kind="emit", name="link", area="domainlink", mode="link", module="DomainLink", cfg=cfgs("DomainLink"), min=5000,
         classes=("ok", "reject"), max={"thorough": 200000}),
  ],
  assumptions=["signature schemes are unforgeable", "expired domain linkage credentials are not distinguished: the dates are only required"])

check("P11",
  parts=[
    dict(kind="emit", name="req", area="presexch", mode="req", module="PexReq", cfg=cfgs("PexReq"), min=15000,
         classes=("ok", "reject"), max={"quick": 20000, "thorough": 150000}),
    dict(kind="emit", name="wallet", area="presexch", mode="wallet", module="PexWallet", cfg=cfgs("PexWallet"), min=5000,
         classes=("ok", "reject"), max={"thorough": 200000}),
  ],
  assumptions=["exact counts count the descriptors answered, as the library's requirement logic documents"])

check("P12",
  parts=[
    dict(kind="emit", name="reqmatch", area="presexch", mode="reqmatch", module="PexReq", cfg=cfgs("PexReq"), min=15000,
         classes=("ok",), max={"quick": 15000, "thorough": 100000}),
    dict(kind="emit", name="walletmatch", area="presexch", mode="walletmatch", module="PexWallet", cfg=cfgs("PexWallet"), min=5000,
         classes=("ok",), max={"thorough": 200000}),
    dict(kind="emit", name="match", area="presexch", mode="match", module="PexMatch", cfg=cfgs("PexMatch"), min=5000,
         classes=("ok", "reject"), max={"thorough": 200000}),
  ],
  assumptions=["signature schemes are unforgeable"])

check("P13",
  parts=[
    dict(kind="emit", name="field", area="presexch", mode="field", module="PexField", cfg=cfgs("PexField"), min=8000,
         classes=("match", "none"), max={"quick": 15000, "thorough": 150000}),
    dict(kind="emit", name="limit", area="presexch", mode="limit", module="PexLimit", cfg=cfgs("PexLimit"), min=8000,
         classes=("ok", "none"), max={"quick": 15000, "thorough": 150000}),
  ],
  assumptions=["the JSON Schema evaluator is right about single keywords"])

check("P09",
  parts=[
    dict(kind="emit", name="shape", area="vcshape", mode="shape", module="VCShape", cfg=cfgs("VCShape"), min=15000,
         classes=("exact", "seconds", "refuse", "unproven"), max={"quick": 20000, "thorough": 400000}),
    dict(kind="emit", name="claims", area="vcshape", mode="claims", module="TokenClaims", cfg=cfgs("TokenClaims"), min=1500,
         classes=("ok", "reject", "unchecked"), max={"thorough": 350000}),
  ],
  assumptions=["registered claims of JSON Web Tokens count seconds"])

check("P20", parts=[
    dict(kind="emit", name="resource", area="linked", mode="resource", module="RelResource", cfg=cfgs("RelResource"), min=5000,
         classes=("ok", "reject", "open"), max={"quick": 20000, "thorough": 400000}),
    dict(kind="emit", name="cache", area="linked", mode="history", module="LinkCache", cfg=cfgs("LinkCache"), min=5000,
         classes=("ok", "reject", "either"), max={"quick": 8000, "thorough": 150000}),
    dict(kind="emit", name="structure", area="linked", mode="structure", module="Structure", cfg=cfgs("Structure"), min=5000,
         classes=("ok", "reject", "either"), max={"quick": 20000, "thorough": 200000}),
  ],
  assumptions=["a cache may answer with any version it was given until told to forget it"])

check("P21", parts=[
    dict(kind="emit", name="token", area="sign", mode="token", module="SignToken", cfg=cfgs("SignToken"), min=1500,
         classes=("verifies", "fails", "refuse"), max={"quick": 25000, "thorough": 300000}),
    dict(kind="emit", name="linked", area="sign", mode="linked", module="SignLD", cfg=cfgs("SignLD"), min=2500,
         classes=("verifies", "fails", "refuse"), max={"quick": 25000, "thorough": 300000}),
    dict(kind="emit", name="integrity", area="sign", mode="integrity", module="SignDI", cfg=cfgs("SignDI"), min=2000,
         classes=("verifies", "fails", "refuse"), max={"quick": 25000, "thorough": 300000}),
  ],
  assumptions=["signature schemes are unforgeable"])

check("P18", parts=[
    dict(kind="emit", name="race", area="shared", mode="race", shared=True, module="Shared", cfg=cfgs("SharedRace"), min=15000, race=True, may_be_idle=("Work",),
         classes=("alone",), max={"quick": 12000, "thorough": 35000}, always=lambda x: len(set(x["prog"])) == 1),
    dict(kind="emit", name="gated", area="shared", mode="gated", shared=True, module="Shared", cfg=cfgs("SharedGate"), min=15000,
         classes=("alone",), max={"quick": 12000, "thorough": 120000}),
  ],
  assumptions=["the Go race detector reports every unordered pair of accesses it sees"])

check("P22", parts=[
    dict(kind="emit", name="history", area="history", mode="history", module="History", cfg=cfgs("History"), min=15000,
         classes=("proven", "broken", "unproven"), max={"quick": 15000, "thorough": 150000}),
    dict(kind="emit", name="deep", area="history", mode="history", module="History", cfg=cfgs("HistoryDeep"), min=2000,
         simulate={"quick": dict(num=400, depth=7), "thorough": dict(num=4000, depth=9)},
         classes=("proven", "broken", "unproven"), max={"quick": 6000, "thorough": 120000}),
  ],
  assumptions=["signature schemes are unforgeable"])

check("P19", parts=[
    dict(kind="emit", name="single", area="hostile", mode="hostile", module="Hostile", cfg=cfgs("Hostile"), min=50000,
         classes=("error", "result"), max={"quick": 5000, "thorough": 24000}, always=lambda x: not x["edits"] and not x["raw"]),
    dict(kind="emit", name="multi", area="hostile", mode="hostile", module="Hostile", cfg=cfgs("HostilePair"), min=500,
         simulate={"quick": dict(num=120, depth=4), "thorough": dict(num=200, depth=5)},
         classes=("error", "result"), max={"quick": 1000, "thorough": 5000}),
  ],
  assumptions=["a call that gives no answer within 150 seconds never will"])

check("P23",
  parts=[
    dict(kind="emit", name="steps", area="sdflow", mode="flow", module="SDFlow", cfg=cfgs("SDFlow"), min=5000, classes=("done", "refused"),
         max={"quick": 6000, "thorough": 60000}),
    dict(kind="emit", name="deep", area="sdflow", mode="flow", module="SDFlow", cfg=cfgs("SDFlowDeep"), min=1000, classes=("done", "refused"),
         simulate={"quick": dict(num=60, depth=8), "thorough": dict(num=1000, depth=10)}, max={"quick": 3000, "thorough": 40000}),
  ],
  assumptions=["hash functions are collision free"])

check("P24",
  parts=[
    dict(kind="emit", name="proof", area="diddoc", mode="didproof", module="DidProof", cfg=cfgs("DidProof"), min=300, classes=("ok", "reject"),
         max={"quick": 9000, "thorough": 100000}),
  ],
  assumptions=["hash functions are collision free", "signatures cannot be forged"])


check("P25",
  parts=[
    dict(kind="emit", name="derive", area="bbs", mode="bbs", module="BBSDerive", cfg=cfgs("BBSDerive"), min=300, classes=("ok", "reject", "refuse"),
         max={"quick": 3000, "thorough": 30000}),
  ],
  assumptions=["hash functions are collision free", "BBS+ signatures and proofs cannot be forged and hide what is not revealed"])
