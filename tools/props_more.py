RT = "TLA+ specification of the record formats as writer and reader machines over the rules; TLC validates recorded sessions of the real exporters and parsers against it"
PROPS += [
 P("P13", "CSA records are written and read without loss",
   "Each call on the CSA exporter adds exactly the CSA text of what it was given: header, start position, moves with the mover's sign, times, comments and ending. Reading a CSA record, from text or file, one game or several separated by slashes, gives back every item it contains: version, names, ratings, start position in any of the notations, moves, times, comments, evaluations, ending and winner; a record with an illegal move or an unreadable line is refused.",
   ["inputs", "histories"], "every game, start position, combination of header items, comments, times and endings, and line ending",
   "Tests read a few sample files; which of the many optional items comes before which, on whose move the game ends and how the position is written gives far more records than samples.",
   ["cshogi/CSA.py", "src/parser.h", "cshogi/_cshogi.pyx"],
   [("exporter", "cshogi/CSA.py Exporter.info, move, endgame"), ("parser", "src/parser.h parser::__Parser::parse_csa_str, parse_csa_file"), ("winner and endings", "src/parser.h")], technique=RT),
 P("P14", "KIF records are written and read without loss",
   "Each call on the KIF exporter adds exactly the KIF text of what it was given: header with handicap name or position diagram, numbered moves with the same-square form and clock times, evaluation comments, ending and result line. Reading a KIF record of a game from the standard or a handicap start gives back its dates, names, other header items, moves, times, comments attached to the right moves, ending and winner, whatever spelling of pieces, clock format, line ending or file encoding is used.",
   ["inputs", "histories"], "every game from the initial or a handicap position, for writing also from any position, with every ending",
   "Tests read sample files; recaptures, drops, promotions, handicap starts where White moves first, comment placement and endings combine freely.",
   ["cshogi/KIF.py"],
   [("exporter", "cshogi/KIF.py Exporter.header, move, info, end, move_to_kif, board_to_bod"), ("parser", "cshogi/KIF.py Parser.parse_str, parse_move_str")], technique=RT),
 P("P15", "A KI2 move text names exactly one legal move, and KI2 records are read back",
   "In every position the KI2 text of a legal move is the standard one (target or same-square sign, piece, and only the needed left/right/straight, up/down/sideways, drop and promotion marks, seen from the mover); no two legal moves have the same text, and reading the text back gives the move. Records written by the exporter have exactly the text of their items, and reading a record gives its header items, moves, comments, ending and winner, however many moves stand on a line.",
   ["inputs", "histories"], "every legal move of every position with a real set of pieces, every game from the initial or a handicap position",
   "Telling pieces apart depends on where all pieces of that kind stand; tests list some dozens of configurations, mostly golds and silvers of one colour.",
   ["cshogi/KI2.py", "cshogi/KIF.py"],
   [("naming a move", "cshogi/KI2.py move_to_ki2"), ("resolving a name", "cshogi/KI2.py Parser.parse_move_str"), ("record parser and exporter", "cshogi/KI2.py Parser.parse_str, Exporter")], technique=RT),
 P("P16", "PGN export and board diagrams show the game and the position as they are",
   "A PGN record contains the given tags, result and every move in order, in the documented square names, wrapped within 80 columns. The text diagram, the Japanese (BOD) diagram with hands, side to move and last move, and the SVG drawing of a board show every piece on its square, the hands, the move number and the marked move of the current position.",
   ["inputs", "histories"], "every game and every position, with and without history",
   "Tests compare a couple of diagrams; hand counts above ten, both colours, promoted pieces and the last move's name vary independently.",
   ["cshogi/PGN.py", "cshogi/KIF.py", "cshogi/KI2.py", "cshogi/_cshogi.pyx", "src/cshogi.h"],
   [("PGN", "cshogi/PGN.py Exporter.tag_pair, movetext, move_to_san"), ("diagrams", "cshogi/_cshogi.pyx Board.to_svg, to_bod, __repr__; cshogi/KIF.py board_to_bod, move_to_bod")], technique=RT),
]
PROPS += [
 P("P17", "The USI client sends exactly its commands and relays exactly the replies",
   "Every client call sends exactly its one USI command line with the given arguments, in call order, to the engine started in its own directory. A call that waits (connect, usi, isready, go, go_mate) consumes the engine's output up to and including the line that ends it, whatever else the engine prints before, hands every line of it to the listener in order and returns what that line says; what is printed later is left for the next call; if the engine dies the call ends with an error instead of waiting for ever. The info listeners report, for the best move played, the fields, score and line of play of the last matching info line since they were reset, and for MultiPV the last line of each number in order.",
   ["inputs", "histories", "crash_points"], "every order of client calls, every engine output between the protocol lines, and the engine exiting at any point of it",
   "No test starts an engine at all; ordering of chatter against protocol lines and an engine's exit are histories, not inputs.",
   ["cshogi/usi/Engine.py"],
   [("commands and waiting", "cshogi/usi/Engine.py Engine"), ("listeners", "cshogi/usi/Engine.py InfoListener, MultiPVListener")],
   technique="TLA+ specification of the USI client as a machine with the engine's output queue; TLC validates recorded sessions of the real client with scripted engines against it"),
 P("P19", "The gym environments play the game and pay out its result",
   "A step of the environment plays exactly the given legal move (or resigns), and reports the game finished exactly when a position occurs for the fourth time, the opponent has no legal move, or the side to move resigns, with the reward of that outcome for the side that moved: 1 for winning, -1 for losing (including losing by perpetual check), 0 otherwise. The environment's board, legal moves and rendering are those of the game so far, reset starts a new game, and a vector of environments behaves as independent environments that restart when finished.",
   ["inputs", "histories"], "every sequence of steps, resets and renderings, including repetitions and perpetual checks",
   "Repetition outcomes need specific histories of many moves, and vectors interleave several games.",
   ["cshogi/gym_shogi/envs/shogi_env.pyx", "cshogi/gym_shogi/envs/shogi_vec_env.pyx"],
   [("step and reset", "cshogi/gym_shogi/envs/shogi_env.pyx ShogiEnv.step, reset"), ("vector", "cshogi/gym_shogi/envs/shogi_vec_env.pyx ShogiVecEnv")],
   technique="TLA+ specification of environments over the rules; TLC validates recorded sessions of the real environments against it"),
]
PROPS += [
 P("P18", "A match between engines is run, judged and recorded correctly",
   "In a match of any number of games each engine gets the right colour, options, clock, opening (shuffled ones each in turn for a pair of games, in an order given by the seed) and, in order, exactly the commands that concern it, including pondering (ponderhit when the guess was played, otherwise stop), and no search is left running when a game is over. Every game ends exactly when and for whom the rules and settings say: mate, resignation or score below the threshold, declaration, illegal move, fourth repetition, perpetual check, move limit, time used up (main time, increment, byoyomi). The running totals, the printed summary with its rating figures, the CSA and PGN records, the callback and the returned result all agree with the games played. Run from the command line, the settings given there are those of the match, and three engines play a league: in every round each pair plays two games, colours changed, from the same opening, every opening having its turn, and the table printed after a round has the totals of each pair.",
   ["histories", "inputs", "schedules"], "every combination of match settings, every pair of engine behaviours and timings, with and without pondering",
   "There is no test of matches; outcomes depend on whole games, on clocks and on two engine processes running at the same time.",
   ["cshogi/cli.py", "cshogi/usi/Engine.py"],
   [("game loop and clocks", "cshogi/cli.py main"), ("comments", "cshogi/cli.py usi_info_to_csa_comment, usi_info_to_score"), ("command line and league", "cshogi/cli.py, when run as a program"), ("pondering", "cshogi/cli.py main; cshogi/usi/Engine.py Engine.go")],
   technique="TLA+ specification of the match as a machine over the rules, the clocks and the engines' command queues; TLC validates recorded matches of the real runner with engines played by the recorder against it"),
]
PROPS += [
 P("P20", "The web server plays, judges, records and shows a game as it is",
   "A game on the web page between any of engines and humans is played under the same rules as a match: engine 1 is black, each engine gets exactly its commands and clocks, a human's move is taken only when it is legal and has the number of the present move, and the game ends exactly when and for whom the rules and settings say. The list of moves, names, times, evaluations, lines of play and the final verdict given to the page, the page's word on whose turn it is, and the CSA file all agree with the game played; a CSA record given to the server, with any ending, is shown move by move as recorded. The board the page draws after any number of moves is the position reached, with the hands and the last move marked.",
   ["histories", "inputs"], "every game between engines and humans with every time control and ending, and every CSA record from the initial position",
   "There is no test of the web server; outcomes depend on whole games, clocks and stale or illegal input arriving at any time.",
   ["cshogi/web/app.py", "cshogi/web/static/board.js", "cshogi/web/templates/board.html", "cshogi/CSA.py"],
   [("game loop", "cshogi/web/app.py match"), ("human input", "cshogi/web/app.py Human.go, run.human_move"), ("replay", "cshogi/web/app.py run"), ("drawing", "cshogi/web/static/board.js Board")],
   technique="TLA+ specification of a game on the page over the match, rules and record modules; TLC validates recorded sessions of the real server, with engines and browser played by the recorder, against it"),
]
PROPS += [
 P("P21", "Rating figures follow from the match result",
   "For every result of wins, losses and draws the point ratio and draw ratio are the exact fractions, the Elo difference is 400 times the common logarithm of the odds scored, the error margin is half the width of the 95% confidence interval of the score expressed in Elo (refused when the interval leaves the range of possible scores), and the likelihood of superiority is the normal distribution at (wins - losses) / sqrt(wins + losses), in percent. Exchanging the players reverses the difference and keeps the margin; one more win never lowers the difference or the likelihood.",
   ["inputs"], "every result with at least one point on each side (for the ratios: at least one game)",
   "There is no test of the figures; they have to be right for every result, not for a sample, and errors of a constant or of a sign look plausible.",
   ["cshogi/elo.py", "cshogi/cli.py"],
   [("figures", "cshogi/elo.py Elo, elo_diff, phi_inv, erf_inv"), ("printing", "cshogi/cli.py main")],
   technique="TLA+ specification of the figures in whole numbers over a table of logarithms that TLC checks to be one; TLC validates the library's figures for all small results and random larger ones against it"),
]
PROPS.sort(key=lambda p: p[0]["id"])
