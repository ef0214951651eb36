"""Writes properties.jsonl and MANIFEST.json from one table, so that they stay in step."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
P = []


def prop(pid, title, statement, over, text, why, files, mech, observe=(), technique="", note=""):
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=list(observe), technique=technique, note=note))


M = "mahjong/"
R = M + "record/"
prop("C01", "Hand notation round-trips",
     "Writing any set of mahjong tiles in the usual notation (\"123m055p9s11z\") and reading the text back gives the same "
     "tiles, and reading a hand typed in any order, with repeated suits, separators between groups and 0 for a red "
     "five, gives exactly the tiles typed. The order in which a set was put together never shows in its text.",
     ["inputs"], "every tile multiset (up to fourteen copies of a kind, red fives included), every "
     "insertion order, every way of typing it",
     "The tests parse a handful of fixed hands; the order of insertion, repeated suits and red fives are not varied.",
     [M + "container/utils.py", M + "container/set.py", M + "tile/definition.py"],
     [("tile_set_from_string, tiles_from_string", M + "container/utils.py"), ("TileSet.__str__", M + "container/set.py")],
     ["str(set)", "tile_set_from_string(text)"], "round-trip and assembled-text generation against plain counters")
prop("C02", "Tile sets behave as multisets, tiles as ordered values",
     "Adding, removing, intersecting, uniting, testing containment, exclusion, size, listing and comparison of tile sets agree with "
     "plain per-kind counting and leave their operands as they were. Tiles of the same kind are equal with equal "
     "hashes (a red five equals a five), are ordered by suit then number, and know their successor, pair, triplet and "
     "run exactly when these exist.",
     ["inputs", "histories"], "every sequence of set operations over arbitrary tile sets; every pair and triple of the "
     "37 tile faces",
     "The tests compare a few literal sets; operand reuse and red/plain mixtures in longer operation sequences are "
     "never exercised.", [M + "container/set.py", M + "tile/definition.py"],
     [("TileSet operators", M + "container/set.py"), ("Tile/AkaTile value semantics", M + "tile/definition.py")],
     [], "stateful operation sequences against a 34-counter model; enumeration of tile pairs")
prop("C03", "Winning hands are recognised exactly",
     "A hand is reported as containing a win of the demanded shape (any number of melds and pairs, or seven different "
     "pairs) exactly when its tiles can be split that way, whatever the order of the tiles, red fives and surplus "
     "tiles. Asking does not change the hand.",
     ["inputs"], "every hand of up to 18 tiles, every demand of 0-4 melds and 0-2 pairs, and seven pairs",
     "The tests check some dozens of fixed hands; overlapping shapes and partial demands number in the millions.",
     [M + "container/pattern/win.py"], [("NormalTypeWin, UniquePairs, WinPattern.match", M + "container/pattern/win.py")],
     [], "generated hands against an exact per-suit dynamic programme")
prop("C04", "Decompositions are complete and not repeated",
     "Listing the ways a hand contains a win gives every way of taking the demanded melds and pairs out of it, as sets "
     "of melds and pairs that really are in the hand, none missing and, in the distinct listing, none twice.",
     ["inputs"], "every hand holding the demanded shape plus up to three surplus tiles",
     "The tests look at the first decomposition of a few hands; ambiguous hands need exhaustive enumeration to judge.",
     [M + "container/pattern/win.py"], [("win_selections, unique_win_selections", M + "container/pattern/win.py")],
     [], "generated ambiguous hands against exhaustive enumeration")
prop("C05", "The distance to a win is exact",
     "The number of tiles a hand still needs before it is ready (-1 for a complete hand) is the true minimum over all "
     "ways to finish the demanded shape, for ordinary hands with any number of calls and for seven pairs, counting "
     "that a fifth copy of a tile does not exist.",
     ["inputs"], "every hand of 3m+1 or 3m+2 tiles for m melds (0-4) and of 13 or 14 tiles for seven pairs",
     "The tests compare a few hundred recorded hands between engines; neither an independent minimum nor quad-heavy "
     "hands are covered.", [M + "container/pattern/reasoning.py", M + "container/pattern/win.py"],
     [("HeuristicPatternMatchWaiting.before_waiting_step", M + "container/pattern/reasoning.py")],
     [], "generated hands against an exact per-suit dynamic programme")
prop("C06", "The useful tiles are exactly those that bring the win nearer",
     "For any hand the reported useful tiles are exactly the kinds of tile whose arrival lowers the distance to the "
     "win, never a kind of which the hand already holds all four, and the distance reported along with them is the "
     "right one. An engine asked about several hands in turn answers each as if it were the first.",
     ["inputs", "histories"], "every hand of 3m+1 or 3m+2 tiles (m 0-4) and seven-pair hands, also several hands per "
     "engine", "The tests assert some useful tiles of a few hands; exactness needs the distance of all 34 extensions.",
     [M + "container/pattern/reasoning.py"],
     [("waiting_and_useful_tiles, useful_tiles", M + "container/pattern/reasoning.py")],
     [], "generated hands; definition checked tile by tile with an exact distance")
prop("C07", "The one-pass discard analysis equals trying every discard",
     "Analysing a whole hand at once lists exactly the discards that keep the distance (every discard, for a complete "
     "hand), each once, with the distance and useful tiles that discarding that tile and analysing the rest gives.",
     ["inputs"], "every hand of 3m+2 tiles, ordinary and seven-pair shapes",
     "The tests never compare the one-pass analysis with the per-discard one.",
     [M + "container/pattern/reasoning.py"],
     [("batch_waiting_and_useful_tiles", M + "container/pattern/reasoning.py")], [],
     "metamorphic relation plus exact reference on generated hands")
prop("C08", "All search engines give the same answer under both four-copy rules",
     "The brute-force, pattern-match and heuristic engines report the same distance and the same useful tiles for every "
     "hand, both when a fifth copy of a tile is ruled out and when it is allowed. What they report is right under the "
     "rule that was asked for.",
     ["inputs", "configurations"], "every hand a small number of tiles from ready, every demand of melds, seven pairs, "
     "both settings of the four-copy rule",
     "The tests compare two engines on recorded hands under the default rule only.",
     [M + "container/pattern/reasoning.py"],
     [("BruteForceWaiting, PatternMatchWaiting, HeuristicPatternMatchWaiting", M + "container/pattern/reasoning.py")],
     [], "differential testing of three engines, with a reference for both rules")
prop("C09", "Category numbering is a bijection",
     "Every numbering scheme (mixed radix blocks, with or without names, possibly unbounded at the top, and sequences "
     "of such blocks) gives each index in its range a different category and gets the index back from it. The digits "
     "and offsets are those of mixed-radix counting, and the length is the number of indices.",
     ["configurations", "inputs"], "every scheme of 1-5 blocks of 1-5 digits nested up to three levels, every index "
     "incl. block boundaries",
     "The tests check the few schemes the library itself uses.", [R + "category.py"],
     [("SubCategory, MixedCategory", R + "category.py")], [], "generated schemes against mixed-radix arithmetic")
prop("C10", "Staged grouping is an order-preserving partition",
     "Splitting a sequence by an ordered list of stages yields groups that, put end to end, are the sequence itself; a "
     "group that starts at a stage goes on while every item is at the same stage as the one before or a later one, "
     "items at no stage are grouped by equal key, and a group is labelled with the stages from its first one on, or "
     "its key. This holds however much of each group is consumed before moving on.",
     ["inputs", "histories"], "every sequence, list of stages, key function and pattern of partial consumption",
     "The tests group a few literals and always consume groups completely.", [R + "stage.py"],
     [("StageGroupby", R + "stage.py")], [], "generated sequences and consumption patterns against a greedy partition")
prop("C11", "Tile numbers and tile tables agree",
     "Each of the 136 tile numbers names one tile (4 per kind, the first of each suit's fives being red), each tile "
     "face maps back to its four numbers, and the picture character of a tile is its own. Dora indicators point to the "
     "next tile of the suit, wind or dragon cycle, and the initial tile list of each rule set holds each tile as often "
     "as the rules say.",
     ["inputs", "configurations"], "all 136 numbers, all 37 faces, all indicator lists, all four rule sets",
     "The tests check a few tile numbers; cycles and red fives are not enumerated.",
     [R + "utils/value/tile.py", R + "const.py", M + "tenhou_record_check.py"],
     [("tile_from_tenhou, tile_to_tenhou_range", R + "utils/value/tile.py"), ("doras, initial_tiles", R + "const.py"),
      ("to_unicode_tile", M + "tenhou_record_check.py")], [], "exhaustive enumeration plus generated lists")
prop("C12", "Every call code decodes to the call it stands for",
     "Each code a legal call produces (runs, triplets, added, open and closed quads, norths) decodes to the right "
     "kind of call, the caller's own tiles, the claimed tile, the player it came from and whether it is open. An "
     "added quad replaces the triplet it extends, wherever that triplet stands among the player's calls.",
     ["inputs", "histories"], "all 4032 run, 1224 triplet, 1224 added-quad, 544 quad and 4 north codes for every "
     "seat; sequences of calls", "The tests decode a few codes found in six logs.",
     [R + "utils/value/meld.py", R + "utils/bit.py", R + "state.py"],
     [("meld_from and the call classes", R + "utils/value/meld.py"), ("PlayerMeld.scan", R + "state.py")], [],
     "exhaustive enumeration of codes against the encoder of the simulator")
prop("C13", "The rule code of a game is read bit by bit",
     "Every 16-bit rule code, as a number or as text, gives the player count, red fives, open tanyao, length, speed, "
     "table level, tips and shadow setting its bits stand for, and the descriptive text says so. Two rule codes are "
     "equal exactly when all these settings are.",
     ["inputs"], "all 65536 codes, all pairs in random samples",
     "The tests check a handful of codes.", [R + "utils/value/gametype.py", R + "utils/bit.py"],
     [("GameType", R + "utils/value/gametype.py"), ("unpack_with", R + "utils/bit.py")], [],
     "exhaustive enumeration against bit arithmetic")
prop("C14", "A log is read into its players, rounds and results",
     "Reading the log of any finished game gives the players with their decoded names, ranks, ratings and sexes, the rules, every "
     "event once, in order and in its round, each round's wind, number, counters, dealer, sticks and indicator, and "
     "the final scores and points. The one-line descriptions of the game and its rounds state those facts, with the "
     "ranking in score order and every win or draw named.",
     ["histories"], "every game history: 3 or 4 players, any rounds, calls, wins (also double), draws, disconnections",
     "The tests read six recorded logs and assert little about their content.",
     [R + "reader.py", R + "player.py", R + "stage.py"],
     [("TenhouRecord, TenhouGame", R + "reader.py"), ("TenhouPlayer", R + "player.py")], [],
     "simulated games with recorded ground truth, written as logs and read back")
prop("C15", "Each player's tiles are tracked exactly through a game",
     "After every event of a game, the tracked concealed tiles, calls and discards of each player, the dora indicators "
     "and the tiles nobody has seen are exactly those of the game as played. Following the events one by one, in "
     "groups, or several trackers at once gives the same, and a tracker already obtained never changes.",
     ["histories"], "every game history, every player, every event prefix",
     "The tests follow one or two recorded hands.", [R + "state.py", R + "player.py"],
     [("PlayerHand, PlayerMeld, DiscardTiles, DoraIndicators, InvisibleTiles, GameStateCollection", R + "state.py")],
     [], "simulated games with ground truth at every event")
prop("C16", "The row export of a game tells the game as played",
     "The row-by-row export of a game lists, in order, every deal, draw, discard, call, riichi, new indicator, win and "
     "draw with the right player, tiles, source and scores, each row carrying the label of its round, and ends with "
     "every player's final score.",
     ["histories"], "every game history", "The tests export one log and look at its shape.",
     [R + "utils/event.py", R + "reader.py"],
     [("TenhouEvent.to_paifu", R + "utils/event.py"), ("TenhouGame.to_paifu, TenhouRecord.to_paifu", R + "reader.py")],
     [], "simulated games with ground truth")
prop("C17", "Event descriptions say what happened",
     "The readable description of any event in a log names the player, the action, the tiles and, where there is one, "
     "the other player or the reason, exactly as played, and producing it never fails.",
     ["histories"], "every event of every game history", "The tests print events without asserting the text.",
     [R + "utils/event.py", R + "utils/value/meld.py"],
     [("TenhouEvent.__str__, __repr__", R + "utils/event.py")], [], "simulated games with ground truth")
prop("C18", "Converted games replay to the true state",
     "Converting a game to the universal command list and executing the commands gives, after every event, exactly the "
     "true state of every property of the record, the round and each player: hands, calls, discards, scores, riichi, dealer, "
     "connection, results, ranks. No event is left untranslated, and each command carries the number of its event.",
     ["histories"], "every game history, strict and lenient conversion and execution",
     "The tests execute six logs and assert that it does not fail.",
     [R + "universe/tenhou/event_definition.py", R + "universe/executor.py", R + "universe/interpreter.py"],
     [("event handlers", R + "universe/tenhou/event_definition.py"), ("GameExecutor", R + "universe/executor.py")], [],
     "simulated games; model-based comparison after every event")
prop("C19", "A conversion depends on its log alone",
     "Converting a log gives the same commands however many other conversions were completed, abandoned or begun "
     "before and read at the same time, "
     "through whichever conversion route. Each command's recorded state is the value its property has once it "
     "is executed, and its event kind and player are those of the event it came from.",
     ["histories"], "every sequence of complete, abandoned, repeated and side-by-side conversions of game histories",
     "The tests convert each log once, in a fresh order.",
     [R + "universe/translator.py", R + "universe/tenhou/__init__.py", R + "universe/interpreter.py"],
     [("CommandTranslator.clear, interpreter state", R + "universe/translator.py")], [],
     "generated conversion histories; differential against a clean conversion and the executor")
prop("C20", "Commands survive their CSV file",
     "A command list written to a CSV file and read back through the documented routes gives the same commands, field "
     "by field: number, event, scope, player, property, kind of update, value and state, whatever the players are "
     "called. The same holds for a single command of any property through its record form.",
     ["inputs", "histories"], "every game history, every property with generated values, names that look like "
     "numbers, booleans or missing values", "The tests round-trip the names and values of six logs.",
     [R + "universe/command.py", R + "universe/property_manager.py"],
     [("GameCommand.to_record/from_record/clean", R + "universe/command.py"),
      ("to_str/from_str", R + "universe/property_manager.py")], [], "round-trip of simulated and generated commands")
prop("C21", "State tables survive their CSV file",
     "The table of states of an executed command list holds, row by row, the state after each command, and written to "
     "a CSV file and read back with the library's reader every cell keeps its value and kind, missing cells "
     "staying missing.",
     ["histories"], "every game history and command-list prefix; tricky names",
     "The tests compare one or two tables without tricky text.",
     [R + "universe/executor.py", R + "universe/property_manager.py", R + "util_functions.py"],
     [("execute_as_dataframe, read_clean_csv", R + "universe/executor.py")], [], "round-trip of simulated state tables")
prop("C22", "Strict execution reports every contradiction and nothing else",
     "Executing commands in strict mode stops at the first command that asserts a value contradicting the current "
     "state, and runs to the end when there is none; a hand listed in another order or a first mention is no "
     "contradiction. Lenient execution always runs to the end and takes over the asserted value.",
     ["histories"], "game histories with one recorded fact altered, and generated command sequences over all kinds of "
     "property", "The tests execute six consistent logs; contradictions never occur in them.",
     [R + "universe/executor.py", R + "universe/property_manager.py", R + "universe/tenhou/event_definition.py"],
     [("execute_update_state, check_equal", R + "universe/executor.py")], [],
     "fault injection into simulated logs; generated command sequences against a plain dictionary")
prop("C23", "State dictionaries are persistent",
     "Setting or dropping an entry at any depth of a nested state gives a new whole state with just that change, and "
     "no operation ever changes a state obtained earlier or the data it was made from; in-place changes are refused. "
     "The flat listing of a state has one entry per leaf under its full path.",
     ["histories"], "every sequence of operations on any node of any version, including nodes kept from earlier",
     "The tests make two or three updates of one literal.", [R + "universe/executor.py"],
     [("TransferDict", R + "universe/executor.py")], [], "stateful generation against deep-copied dictionaries")
prop("C24", "The light event table loses nothing",
     "The light table of a log file lists, for every event in order, its position, its name without trailing number, "
     "each attribute with its exact text, the trailing number and the log's file name; the abstract form leaves out "
     "exactly the numbered events.",
     ["inputs", "histories"], "every game history and generated element lists with awkward text, file names and forms",
     "No test covers it.", [R + "util_functions.py"], [("light_dataframe_from_file", R + "util_functions.py")], [],
     "written logs compared with the table read")
prop("C25", "The report's advice is right at every turn",
     "For every discard of the player, the report row shows the hand and calls held, the choice made, the true best "
     "choices with their distance and number of unseen useful tiles, and the same for the choice made and for every "
     "listed discard, over the ordinary shape and seven pairs. The shade of a row is 1 - yours/best per unseen tile "
     "drawn (0 exactly for a best choice), blue once anyone has declared riichi in that round and red before.",
     ["histories"], "every game history, every player and turn, 3 and 4 players, calls, red fives, norths",
     "The test renders one downloaded log and checks that it is HTML.",
     [M + "tenhou_record_check.py", R + "state.py", M + "container/pattern/reasoning.py"],
     [("game_reasoning, discard_reasoning, reasoning_merge", M + "tenhou_record_check.py")], ["the report page"],
     "simulated games; the page is parsed back and compared with an exhaustive reference")
prop("C26", "Reports are well-formed, safe and land where they should",
     "A report page shows player names and game descriptions as text whatever they contain, has one section per round "
     "and one row per discard, and carries the picture of every tile. The command-line tool writes one file for the "
     "player chosen by number, or one per player otherwise, in the current folder and nowhere else, named after the "
     "log, the player and the seat.",
     ["inputs", "histories"], "games of players with markup, quotes, entities, path separators and other scripts in "
     "their names; every answer to the tool's question; every way of giving the log",
     "The test renders one downloaded log.", [M + "tenhou_record_check.py", R + "checker.py", M + "templates/"],
     [("render_template, main, template_env", M + "tenhou_record_check.py"), ("TenhouChecker.parse", R + "checker.py")],
     ["the report page", "files written"], "simulated games with hostile names; page parsed as a browser would")
prop("C27", "Drawing from a wall never exceeds the wall",
     "Tiles drawn from a wall are always among those it still holds, drawing all of it gives exactly its tiles, and "
     "drawing beyond the end gives nothing; every remaining tile is equally likely. The wall drawn from is not "
     "changed, so several draws from it are independent.",
     ["inputs", "histories"], "every wall of 0-136 tiles, every number of draws, interleaved draws",
     "No test covers it.", [M + "container/distribution.py"],
     [("StaticWall, TileDistribution.sample", M + "container/distribution.py")], [],
     "generated walls against counters; exact small-wall probabilities")
prop("C28", "The win-rate tool counts wins correctly",
     "For any 14-tile hand the tool lists every different discard once with the number of experiments in which the "
     "other 13 tiles and the drawn tiles contain an ordinary win or seven pairs, out of the number of experiments "
     "asked for (1000 when left blank), and the percentage is that ratio. The experiments draw the stated number of "
     "tiles fairly from the tiles not in the hand, and input that is not 14 tiles is asked for again.",
     ["inputs"], "every 14-tile hand however typed, any draw and experiment counts, refused inputs before",
     "No test covers it.", [M + "win_rate_demo.py", M + "container/distribution.py"],
     [("main", M + "win_rate_demo.py")], ["printed table"], "tool run on generated hands; recount and exact probabilities")
prop("C29", "Links lead to the right log",
     "The log id found in a link is the one it names, whatever other parameters, fragments or encodings surround it, "
     "and the download address and viewing link are built from it and lead back to it; a link naming no log is "
     "refused without a download. Reading from a link gives what reading the downloaded file gives, asks the server "
     "once, reports failures, and the extraction tool writes exactly that log's commands to the file it announces.",
     ["inputs", "fault_sequences"], "every log id and link shape, failing downloads, the extraction tool",
     "The tests that use links need the network and use one of them.",
     [R + "reader.py", M + "universe_paifu_convert.py"],
     [("log_id_from_url, download_url, from_url", R + "reader.py"), ("main", M + "universe_paifu_convert.py")], [],
     "generated links with a stand-in server")
prop("C30", "Events are dispatched to the most specific handler",
     "A translator tries, in order, the handlers registered for an event's name and attribute together, for its name, "
     "for one of its attributes, and the defaults, each group in order of registration, and takes the first that "
     "yields commands. Those get the event's number and the state after each of them; an event nobody translates "
     "gives nothing, or an error in strict mode.",
     ["programs", "histories"], "every set of registrations and sequence of events",
     "The tests only use the built-in handlers, which do not compete.",
     [R + "universe/tenhou/xml_macher.py", R + "universe/translator.py"],
     [("TenhouCommandTranslator.translate", R + "universe/tenhou/xml_macher.py"),
      ("CommandTranslator.__call__", R + "universe/translator.py")], [],
     "generated handler tables and event sequences against a dispatch model")
prop("C31", "Nested defaults apply inside their block only",
     "An object made inside nested blocks of default settings gets the settings of all enclosing blocks, inner ones and "
     "those given directly taking precedence. Leaving a block, normally or by an error, restores the settings that "
     "held before it.",
     ["programs"], "every nesting of blocks and calls over one or several builders, with failing constructors",
     "No test covers it directly.", [R + "utils/builder.py"], [("Builder, ContextStacker", R + "utils/builder.py")],
     [], "generated block programs against a stack of dictionaries")
prop("C32", "Events are recognised for what they are and whose they are",
     "For every event of a log, exactly the right predicates hold (deal, call, new indicator, riichi, win, draw), the "
     "tile drawn or discarded is read only from draws and discards, and each player's own questions (is it my draw, "
     "discard, call, riichi, win or choice, and what did I call) are answered for that player's events only. A round's "
     "events split into its deal, its play and its endings.",
     ["histories"], "every event of every game of three or four players with any calls, riichi, wins and abortive draws",
     "The tests ask a handful of events of recorded logs.",
     [R + "player.py", R + "utils/event.py", R + "reader.py"],
     [("TenhouPlayer queries", R + "player.py"), ("event predicates", R + "utils/event.py"),
      ("TenhouGame.playing, end_events", R + "reader.py")],
     [], "simulated games with ground truth, every event and player asked")
prop("C33", "The documented analysis of a command file gives the true states",
     "Reading a game's command file, pivoting its recorded states by player and property and filling forward gives, in "
     "every row, the state the executor holds after that command. Converting a game in one call gives the same "
     "commands and one state row per command, as text or as objects.",
     ["histories"], "every converted game, through the README recipe and the one-call conversion",
     "The tests run the recipe on recorded logs and only look that it finishes.",
     [R + "util_functions.py", R + "universe/command.py", R + "universe/executor.py", "README.md"],
     [("parse_dataframe_from_tenhou_record", R + "util_functions.py"),
      ("GameCommand.pandas_columns_clean, to_dataframe", R + "universe/command.py")],
     [], "simulated games, differential between the pivoted table and the executor")
prop("C34", "Every command updates what it names and nothing else",
     "Executing commands one after another changes at each step exactly the property, and for players exactly the "
     "player, the command names: replaced, added to, taken from, reset to its empty value, or asserted. Every other "
     "property and every state produced earlier stays as it was, an executor used before starts afresh, and "
     "interpreting the commands one at a time gives the same values. Taking away what a list does not hold is an "
     "error, not a silent change.",
     ["histories"], "every sequence of commands over all properties of record, round and players with every update "
     "method",
     "The tests execute recorded games only, where most combinations of property and update method never meet.",
     [R + "universe/executor.py", R + "universe/interpreter.py", R + "universe/property_manager.py",
      R + "universe/format.py"],
     [("GameExecutor.execute", R + "universe/executor.py"), ("GameInterpreter.interpret", R + "universe/interpreter.py"),
      ("PropertyTypeManager", R + "universe/property_manager.py")],
     ["list(GameExecutor().execute(commands))", "GameInterpreter().interpret(command)"],
     "generated command sequences against a dictionary model, differential between executor and interpreter")
prop("C35", "A bit layout gives each field its own bits",
     "A layout described as text, one field with its width after another from the lowest bit up, reads every 16-bit "
     "code into exactly those bits (numbers, signed numbers and flags, the code given as number or as text), packing "
     "the fields gives the code back, and replacing one field changes no other.",
     ["inputs"], "every layout of 16 bits and every code",
     "The tests decode a few calls and rule codes through the library's own five layouts.",
     [R + "utils/bit.py"],
     [("bit_struct_from_desc, named_tuple_from_desc, unpack_with, repack_to", R + "utils/bit.py")],
     [], "generated layouts and codes against integer arithmetic, round trip")


def main():
    sys.path.insert(0, os.path.join(ROOT, "pbt"))
    with open(os.path.join(ROOT, "properties.jsonl"), "w", encoding="utf-8") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}, ensure_ascii=False) + "\n")
    checks = []
    for p in P:
        cmd = "bash check.sh %s" % p["id"]
        checks.append({
            "property": p["id"], "quick_cmd": cmd + " --tier quick", "thorough_cmd": cmd + " --tier thorough",
            "technique": "property-based testing: " + p["technique"], "level": "exploration",
            "level_note": "Random but reproducible search (seeded by VERIF_SEED) over generated cases with shrinking; "
                          "no claim beyond the cases generated. " + (p["note"] or
                          "Trusts the independent reference or simulator in pbt/ and the assumptions listed in the "
                          "evidence.")})
    with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump({"version": 1, "setup_cmd": "bash check.sh --self-test", "checks": checks, "not_applicable": [],
                   "notes": "Checks import /repo's working tree under /opt/pypyvenv (nothing to build). No hooks. "
                            "Known findings: known_findings.json. Engine and generators: pbt/. See DESIGN.md."},
                  f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
