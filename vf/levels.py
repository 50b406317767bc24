"""how much of each property is proved; shared by the evidence files and MANIFEST.json

'proof' is claimed where the obligations that carry the property are discharged for all inputs of any size; where most of
them are discharged for structures, sums or files of bounded size only, the level is 'other'."""
OTHER = {"C05", "C06", "C18", "C28"}
EXPLAIN = ("Contracts on the real functions, every obligation discharged by the verifier for all values and all numbers of wavelengths, "
           "but most of them for lists (of layers, operands, angles) up to a stated length only: counted as bounded, not as proved. "
           "The counts of both kinds are in this file.")


def level(prop):
    return "other" if prop in OTHER else "proof"
