D = "deductive verification of the real code: contracts per function discharged by a symbolic verification-condition generator with z3; bounded runtime contracts as replay and stand-in"
B = "runtime contract checks of the real code (bounded); deductive contracts pending"
LEVEL = {f"C{i:02d}": ("other", B, "bounded") for i in range(1, 22)}
NA = {}
NOTE = {}
PROVED = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21"]
for i in PROVED:
    LEVEL[i] = ("proof", D, NOTE.get(i, "every obligation generated from the current source discharged; machine arithmetic treated as "
                "real arithmetic, dependency contracts assumed (listed in evidence)"))
