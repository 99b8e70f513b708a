#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

POS, MG, TB, ZB, BB = "src/position.rs", "src/movegen.rs", "src/tables.rs", "src/zobrist.rs", "src/bitboard.rs"
BE = ["src/bitboard/core.rs", "src/bitboard/x86_64.rs", "src/bitboard/aarch64.rs", "src/bitboard/wasm32.rs"]

p("C01", "Undoing a move restores the previous position exactly",
  "After playing any legal move and then taking the same move back, everything a caller can observe about the position - side to move, ply, every square, both hands, keys, check status, which moves give check, the legal moves, and how further moves behave - is what it was before.",
  ["histories", "inputs"], "every reachable position, every legal move, nested to any depth",
  "The do/undo tests sample a few dozen games and the perft counts; a field that is restored wrongly only for one kind of capture or promotion, and the deeper history, escapes them.",
  [POS], [("undo_move inverts the mutations of do_move", POS), ("per-position history stack", POS)],
  [("board/hands/side/ply", "the mutable game state", POS), ("history stack", "what is needed to undo, plus cached attack data", POS)],
  ["every public query after do_move + undo_move"])

p("C02", "Playing a move changes board, hands, side and ply by the rules of shogi",
  "Playing a legal move moves (and if asked promotes) exactly the named piece, or drops exactly the named piece from the mover's hand; a captured piece goes to the mover's hand unpromoted; no other square or hand count changes; the side to move flips and the ply grows by one.",
  ["histories", "inputs"], "every legal position and every legal move",
  "Tests compare a handful of moves; the effect must be right for every piece kind, colour, capture and promotion combination.",
  [POS], [("do_move updates board, hands, side, ply", POS), ("setup copies the caller's position", POS)],
  [("board/hands/side/ply", "the mutable game state", POS)],
  ["piece_at, hand, side_to_move, ply after do_move"])

p("C03", "A position reached by moves behaves like the same position set up afresh",
  "A position reached by playing (and taking back) moves gives the same answer to every query - check status, checking moves, legal moves - as a position freshly set up from the same board, hands and side to move; no cached information ever goes stale.",
  ["histories"], "every sequence of legal moves and take-backs from every legal position",
  "The cached attack data is recomputed incrementally at every move; tests look at a few short histories, perft only detects a stale cache when it changes a node count in the two positions used.",
  [POS, MG, TB], [("attack info recomputed at each move", POS), ("checkers taken from the checking-move test", POS)],
  [("checkers", "pieces giving check to the side to move", POS), ("checkables", "squares from which each kind would give check", POS), ("pinned", "sole blockers in front of each king", POS), ("bitboards", "redundant copy of the board", POS)],
  ["in_check, is_check_move, legal_moves"])

p("C04", "Position keys do not depend on how the position was reached",
  "Two positions with the same board, hands and side to move have the same key and the same pair of keys, whether they were set up directly or reached by any sequence of moves and take-backs.",
  ["histories", "inputs"], "every pair of histories that end in the same position",
  "The incremental update must agree with the from-scratch computation for every move kind; tests compare a few transpositions that all start from Black to move.",
  [POS, ZB], [("keys computed from scratch at set-up", POS), ("keys updated incrementally by do_move", POS)],
  [("keys", "the pair (board and side, hands)", POS)], ["key, keys"])

p("C05", "Keys are composed as documented: board and side apart from hands",
  "The combined key is the exclusive-or of the two component keys; the first component depends only on the pieces on the board and the side to move and the second only on the hands; reversing only the side to move changes exactly the lowest bit, and every different piece-on-square and every further piece in hand contributes its own independently drawn random value.",
  ["inputs"], "every position, every square, piece and hand count",
  "The uniqueness test samples stored values; it cannot see a value shared or reused by an index mistake for an arbitrary combination, or a component mixed into the wrong half.",
  [ZB, POS], [("table of random values with the side bit reserved", ZB), ("table lookups by square/colour/kind and colour/kind/count", ZB)],
  [("random value table", "one value per feature", ZB)], ["key, keys"])

p("C06", "Check status is exact",
  "A position reports being in check exactly when an enemy piece attacks the king of the side to move, for every piece kind, direction, distance and blocking configuration and for both colours; it reports no check when that king is absent.",
  ["inputs"], "every placement of pieces with at most one king per side",
  "Tests sample a few dozen diagrams; an attack wrongly blocked, a missing direction or colour mix-up in one of 14 kinds survives them.",
  [POS, TB] + BE[:1], [("checker computation from the king outwards", POS), ("attack tables", TB), ("sliding attacks with blockers", "src/bitboard/core.rs")],
  [("checkers", "pieces giving check", POS)], ["in_check"])

p("C07", "The checking-move test is exact",
  "For every legal move, the query whether a move gives check answers yes exactly when the opponent is in check after the move is played, including promotions, drops, discovered checks and double checks.",
  ["inputs", "histories"], "every legal position and every legal move in it",
  "Direct and discovered checks are decided from cached tables without playing the move; tests compare a limited set of positions.",
  [POS, TB], [("squares from which each kind gives check", POS), ("pinned/blocker set for discovered check", POS)],
  [("checkables", "squares from which each kind would give check", POS), ("pinned", "sole blockers", POS)], ["is_check_move, in_check after do_move"])

p("C08", "No generated move leaves the mover's own king attacked",
  "After any move from the legal-move list, the king of the side that moved is not attacked: pinned pieces stay on their line, the king never steps onto an attacked square (also not along the line of a checking slider), and a check is always resolved.",
  ["inputs", "histories"], "every legal position, in check or not, and every move of its list",
  "perft covers the subtrees of two positions; pin and x-ray geometry has thousands of configurations.",
  [MG, POS, TB], [("filter of pseudo-legal moves", MG), ("evasion generator", MG), ("pinned set", POS)],
  [("pinned", "sole blockers in front of a king", POS), ("checkers", "pieces giving check", POS)], ["legal_moves, then do_move and attack inspection"])

p("C09", "Generated board moves follow each piece's movement",
  "Every generated board move takes a piece of the side to move to a square that this kind of piece can reach - right directions for its colour, right distance, nothing jumped over except by knights - and that holds no piece of the mover.",
  ["inputs"], "every position, kind, colour, square and blocker configuration",
  "Tests count moves in a few diagrams and check tables at sampled squares; edges of the board and rare kinds are sampled thinly.",
  [MG, TB] + BE[:1], [("step and sliding attack tables", TB), ("per-kind generators", MG)],
  [("attack tables", "per square and colour", TB)], ["legal_moves"])

p("C10", "Promotion is offered exactly when allowed and forced exactly when required",
  "A board move is offered with promotion exactly when the piece can promote and the move starts or ends in the mover's last three ranks. The same move without promotion is offered exactly when the piece would still have a move from its target square, so pawns and lances never stay unpromoted on the last rank nor knights on the last two.",
  ["inputs"], "every kind, colour, from- and to-square",
  "Promotion depends on kind, colour, from- and to-rank; tests sample some combinations, mostly for Black.",
  [MG, TB], [("promotion zone table", TB), ("relative rank table", TB), ("per-kind generators", MG)], [], ["legal_moves"])

p("C11", "Drops obey the rules of shogi",
  "A drop is generated exactly when the mover holds that piece, the target square is empty, a pawn's file holds no unpromoted pawn of the mover, the piece would still have a move there, and - in check - it blocks the check; dropped pieces belong to the mover.",
  ["inputs"], "every position, hand and square",
  "The two-pawn rule is computed with carry arithmetic on packed files and tests sample a few file patterns; dead-square and blocking conditions are tested on single diagrams.",
  [MG] + [TB] + BE[:1], [("drop generator", MG), ("vacant-file computation", "src/bitboard/core.rs"), ("relative rank table", TB)], [], ["legal_moves"])

p("C12", "A pawn drop is refused exactly when it would be checkmate",
  "A pawn drop that gives check is left out of the legal moves exactly when the opponent would then have no legal reply, and a pawn drop that the opponent can answer (by capture or by moving the king) is offered.",
  ["inputs"], "every position in which a pawn can be dropped in front of the enemy king",
  "The mate test is a special-purpose calculation with pins, x-rays and escape squares; tests cover a dozen diagrams.",
  [MG, POS], [("pawn drop mate test", MG), ("pinned set of the other side", POS)], [], ["legal_moves"])

p("C13", "The legal-move list is complete and free of duplicates",
  "The list of legal moves contains every move that is legal under the rules of shogi, each exactly once, whether or not the side to move is in check.",
  ["inputs"], "every legal position",
  "perft counts node totals from two positions only; a class of moves missing in unusual geometry, or a duplicate, is not visible elsewhere.",
  [MG, POS, TB], [("generators for each piece kind", MG), ("removal of illegal moves", MG)], [], ["legal_moves"])

p("C14", "Every reply to check is found",
  "In check, the list contains every king move to a safe square, every capture of a single checking piece and every interposition by a board move or drop; under double check it contains exactly the safe king moves.",
  ["inputs"], "every position in check, every checking piece kind, direction and distance",
  "Evasions are generated by a separate optimised routine; tests cover a few checks.",
  [MG, POS, TB], [("evasion generator", MG), ("between-squares table", TB)], [("checkers", "pieces giving check", POS)], ["legal_moves"])

p("C15", "Both colours are treated alike",
  "Rotating the board by 180 degrees and exchanging the colours of all pieces, hands and the side to move yields exactly the rotated answers: check status, checking moves and legal moves.",
  ["inputs"], "every position and its mirror image",
  "Tests use mostly Black-to-move diagrams; every colour-dependent table and shift has a twin that is rarely exercised.",
  [MG, POS, TB], [("colour-indexed tables", TB), ("shift direction and offset per colour", MG)], [], ["legal_moves, in_check, is_check_move"])

p("C16", "All board-set implementations agree bit for bit",
  "The portable and the vectorised implementations (x86-64, ARM, WebAssembly) of the square-set operations compute the same sets - set algebra, membership, counting, ordered iteration, shifts within a file, sliding up to and including the first blocker, and files without a member - for every input the engine can pass, so results do not depend on target or feature flags.",
  ["inputs", "configurations"], "four implementations, every operation, every square and every occupancy",
  "Only two of the four implementations run in the test environment, with a few sampled boards.",
  [BB] + BE, [("implementation selection", BB), ("sliding by carry and leading/trailing zeros", "src/bitboard/core.rs"), ("SIMD sliding", "src/bitboard/x86_64.rs")], [], ["all queries, under each target/feature configuration"])

p("C17", "Queries are pure and positions are independent values",
  "Queries never change a position and return the same answer when repeated; a clone and its original never influence each other, positions can be sent to and shared between threads, and no result depends on hidden shared state, time, environment or a random seed.",
  ["histories", "schedules"], "every interleaving of queries and moves on any number of positions and threads",
  "No test shares positions between threads or looks for hidden state.",
  [POS, MG, TB, ZB], [("owned state only", POS), ("tables initialised once, immutable afterwards, fixed seed", ZB)], [], ["all public methods"])

p("C18", "No undefined behaviour is reachable through the safe interface",
  "No call sequence on the safe public interface with a valid position and legal moves constructs an invalid square, reads outside a table, or executes an instruction the build target does not provide.",
  ["inputs", "configurations"], "every position with any piece placement, every legal move, every build configuration",
  "Unchecked square construction from shifted boards is only wrong for particular edge placements, and target gating is a matter of configuration.",
  [MG, BB] + BE, [("unchecked conversion after a shift", MG), ("feature gating of vector code", BB)], [], ["legal_moves; builds"])

p("C19", "Positions without a king are handled",
  "Setting up a position in which one or both kings are absent, asking any query on it and playing and undoing its moves never aborts, and the absent king simply imposes no restrictions.",
  ["inputs"], "every position lacking one or both kings (tsume problems)",
  "One or two tests use king-less boards.", [POS, MG], [("optional king position", POS)], [], ["new, legal_moves, do_move, undo_move"])

p("C20", "Legal play never aborts",
  "From any legal position, generating legal moves, testing them for check, playing and undoing them never panics.",
  ["histories", "inputs"], "every legal position and legal move sequence",
  "Unwraps and table indices are guarded by invariants that tests only sample.", [POS, MG, TB, ZB], [("invariants behind unwrap/index", POS)], [], ["all public methods"])

p("C21", "The move list never overflows its fixed capacity",
  "Generating moves for any legal position never produces more moves (before or after filtering) than the fixed-capacity list can hold.",
  ["inputs"], "every legal position",
  "Tests use one position with the known maximum of 593 legal moves; the bound on unfiltered moves is a global extremal fact.",
  [MG], [("fixed list capacity", MG)], [], ["legal_moves"])

p("C22", "Distinct positions practically never share a key",
  "Two different positions occurring in play have different combined keys except with the negligible probability expected of independent 63-bit random values.",
  ["inputs", "histories"], "every pair of distinct positions",
  "A probabilistic claim on the concrete random table over an astronomically large set of pairs.",
  [ZB], [("table of random values", ZB)], [], ["key"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for q in P:
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
