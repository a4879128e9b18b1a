C = "all values within the bounds stated in DESIGN.md; curve arithmetic represented by discrete logarithms (trusted model of go-ethereum's secp256k1)"
S = "all values and schedules within the bounds stated in DESIGN.md; in-memory network; time modelled as an exact clock"
A = "all values within the bounds stated in DESIGN.md; the rounds of the network by their contract (C60 to C64), one schedule; curve arithmetic represented by discrete logarithms"
G = A + "; coincidences of field-sized values excluded"
F = "all values within the bounds stated in DESIGN.md; base64 represented as an injective renaming of the bytes, files in memory"
claimed = {
 "C01": C, "C02": C, "C03": C, "C04": C, "C05": C, "C06": C, "C07": C,
 "C10": C, "C11": C, "C12": C, "C13": C,
 "C20": C, "C21": C, "C22": C, "C23": C, "C24": C, "C25": C, "C26": C, "C27": C, "C30": C,
 "C40": A, "C41": A, "C42": A, "C43": G, "C44": A, "C45": G, "C46": A, "C47": G, "C48": A, "C49": G,
 "C50": G + "; idealised Paillier encryption", "C51": G, "C52": G + "; two known findings: r and s are not those of ECDSA", "C53": G, "C54": G, "C55": G,
 "C60": S, "C61": S, "C62": S, "C63": S, "C64": S,
 "C70": F, "C71": F,
}
na = {}
