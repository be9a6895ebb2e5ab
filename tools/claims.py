HOOKS = {"guard": "none", "enable": "none", "source_commits": []}
NA = {}
for i, n in [
    ("C04", "proved over all doubles: 1-d cells, every path of erf/erfc"),
    ("C05", "proved over all doubles"),
    ("C06", "proved on the stated range"),
    ("C07", "proved on the stated ranges (mean value theorem on the mathematical inverse)"),
    ("C08", "proved on the stated range and for every integer"),
    ("C09", "proved on the stated range"),
    ("C16", "proved for |x| >= 0.01 and x = 0; Jn for 0 < |x| < 0.01 is sampled (bounded)"),
    ("C17", "proved for |x| >= 0.01; In for |x| < 0.01 is sampled (bounded)"),
    ("C22", "proved on the stated range"),
]:
    C[i] = (FPV, "proof", n)

C["C01"] = (KANI, "proof", "proved for every pair of arguments, bit for bit")
C["C02"] = (FPV, "proof", "proved over all doubles; faddeeva over all pairs of doubles")
C["C18"] = (FPV, "proof", "parity proved for every order and every double by a relational (two-run) fixpoint analysis; samples only search for a failing input")
C["C21"] = (KANI, "proof", "every operation proved over an arbitrary map state (inductive, so for every history), with the standard HashMap replaced by its contract")
C["C16"] = (FPV, "proof", "proved for |x| >= 1e-12 and |x| <= 1e-155 (thorough: everywhere); quick samples Jn on the rest (bounded)")
C["C17"] = (FPV, "proof", "proved for |x| >= 1e-4 and |x| <= 1e-155 (thorough: everywhere); quick samples In on the rest (bounded)")
C["C24"] = (FPV, "proof", "proved on the stated ranges; the code of the dependency is lowered and verified too, not assumed")
C["C10"] = (FPV, "proof", "proved on the stated ranges, in two dimensions, all three algorithms; undecided stopping tests are cut as DESIGN.md says")
C["C11"] = (FPV, "proof", "proved on the stated ranges, in two dimensions (gammq through C10's sum); undecided stopping tests are cut as DESIGN.md says")
C["C13"] = (FPV, "proof", "proved on the stated ranges, in two dimensions")
C["C20"] = (FPV, "proof", "proved on the stated ranges, in two dimensions; undecided stopping tests are cut as DESIGN.md says")
C["C12"] = (FPV, "proof", "proved on the stated ranges, in two dimensions, against the contract of gammp, which is discharged in the same run")
C["C23"] = (FPV, "proof", "proved on the stated ranges, in two dimensions; the conjugate symmetry follows from the accuracy at both points")
C["C19"] = (FPV, "exploration", "bounded in part: some two thirds of the region x < 2 and a fifth of 2 <= x < nu + 1 are proved cell by cell; where a continued fraction passes a pole (on curves all through x > nu + 1) cells are sampled, and never counted as proved")
C["C14"] = (FPV, "exploration", "bounded in part: proved for every x in [1e-299, 1-2e-12] at 676 pairs of parameters, for most of two sheets on which one parameter runs through [0.1, 1000], and at the ends; the rest of the three-dimensional domain is sampled in every box of a grid (a proof over all triples would take about 10^6 core seconds)")
C["C15"] = (FPV, "exploration", "bounded in part: proved for every p at 324 pairs of parameters, against the contract of betai, which is discharged at these pairs in the same run; other parameters are sampled")
C["C03"] = (FPV, "exploration", "bounded in part: every rejection and saturation is proved for all doubles, and that betai, gammp and gammq (and invgammp and invbetai for p outside (0, 1)) accept the valid arguments; that the iterations of besseljy, besselik, invgammp and invbetai do not panic on valid arguments is sampled")
