#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NOT = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, observe=()):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
                  over=over, text=' '.join(text.split()), why=' '.join(why.split()), files=files,
                  mechanism=mechanism, technique=technique, note=' '.join(note.split()), observe=list(observe)))


TRUST = ('Bounded: says nothing beyond the stated bounds. Trusts Jython, the reference written from the rules or the '
         'format in /verif/mc, ')

# ---------------------------------------------------------------- board model
prop('C01', 'A single chequer step is offered exactly when the rules allow it',
     '''For every position, roll and player, asking for the step that starts at a point, or that ends at a point, returns a
     step exactly when the rules of backgammon allow one with a die still to play: bar first, no landing on a held point,
     bearing off only with all chequers home and exactly or from the highest point, larger die first. The step returned
     names the right die, source, destination and whether it hits. Asking changes neither the board nor the dice.''',
     ['inputs'], 'every position of the bounded family, all 21 rolls, both players, every source and destination',
     '''Tests sample some thirty positions; the rule is over every placement, roll and player. Boundary cases (bar and far end of the
     board, bear-off with larger die) are not tested.''',
     ['bglib/model/move.py', 'bglib/model/board.py'],
     [dict(name='guess_your_single_pm_from_source / _from_dest', where='bglib/model/move.py'),
      dict(name='find_src_of_bearoff_with, is_ok_to_bearoff_from, is_open_to_land', where='bglib/model/board.py')],
     'explicit enumeration of positions x rolls x points on the real code against a reference of the rules',
     TRUST + 'and treats a chequer count up to three movers plus up to two opposing points as representative.')

prop('C02', 'Playing one chequer over several dice: legal path found iff one exists',
     '''For every position, roll, source and destination, asking to move one chequer there over one or more dice returns a
     sequence of steps exactly when the rules allow such a sequence with the dice left. Every step of it is legal in turn, uses a die that
     is left, marks hits, and ends at the destination. Asking changes neither the board nor the dice.''',
     ['inputs'], '''every source, destination, roll, with every point the dice touch empty, held by one or by two, and other chequers in
     the way of bearing off or on the bar''',
     '''Tests try a handful of doublets and pairs; which die must go first depends on every pattern of blocked and hit
     points.''',
     ['bglib/model/move.py', 'bglib/model/board.py'],
     [dict(name='guess_your_multiple_pms', where='bglib/model/move.py')],
     'explicit enumeration of every blocking pattern on the real code, against exhaustive search of the rules',
     TRUST + 'and lets at most two other chequers of the mover stand on the board.')

prop('C03', 'Playing and taking back steps keeps board, dice and move in agreement',
     '''At every point of every turn the board, the dice left and the recorded move agree with the steps played and taken back so far:
     chequers are conserved, a hit chequer goes to the bar and comes back when the hit is taken back, and no count is
     negative. A step can be taken back exactly when its chequer is where the step left it; taking everything back restores the board and dice.
     Making the whole move at once gives the same board as making it step by step.''',
     ['histories'], 'every sequence of legal steps and undos of a turn, from each of a family of positions and rolls',
     '''Tests play a few fixed sequences; interleavings of plays and undos (hit, move on, undo the hit) are not
     covered.''',
     ['bglib/model/move.py', 'bglib/model/board.py', 'bglib/model/boardeditor.py'],
     [dict(name='add, append, undo guesses', where='bglib/model/move.py'),
      dict(name='make, make_partial_move', where='bglib/model/board.py'),
      dict(name='append, remove of inverse steps', where='bglib/model/move.py')],
     'exhaustive search over all play/undo sequences of a turn on the real code, in lock step with a reference',
     TRUST + 'and explores a chosen family of starting positions completely.')

prop('C04', 'A turn may end exactly when no more dice can be played',
     '''A player may pick up the dice exactly when the steps played make a complete move by the rules: no legal continuation is
     left, as many dice as possible were played, and the larger die was played when only one of the two can be. Asking
     never changes the board, the dice or the move.''',
     ['histories'], 'every point of every turn, for every position of the bounded family, every roll, both players',
     '''Tests ask on a dozen fixed positions; the obligation to play both dice depends on every continuation of the turn.''',
     ['bglib/model/move.py', 'bglib/model/board.py'],
     [dict(name='is_leagal_to_pickup_dice and the checks it combines', where='bglib/model/move.py')],
     'exhaustive search of all partial turns on the real code, against exhaustive search of the rules',
     TRUST + 'and bounds the mover to three chequers.')

prop('C05', 'The game protocol: turns, dice, cube, resignation and scoring',
     '''In every reachable state of a game each action (start, roll, move, double, take, drop, resign, accept, reject,
     pick up) is allowed to exactly the player and in exactly the situations the rules of match play give it, and has exactly the
     effect they give it on turn, dice, cube and score. An action that is not allowed is refused and changes nothing.''',
     ['histories'], '''every sequence of actions by either player until no new state appears, over match lengths, scores, Crawford and
     cube values in the bound''',
     '''Tests walk single paths; illegal actions in unusual states (double while a resignation is pending, drop after the
     game is over) are never tried.''',
     ['bglib/model/board.py', 'bglib/model/boardeditor.py'],
     [dict(name='is_leagal_to_* guards and the actions', where='bglib/model/board.py')],
     'explicit-state search to a fixed point of the game protocol on the real class, in lock step with a reference automaton',
     TRUST + 'and caps the cube and the match length. Where documentation leaves a rule open the reference follows gnubg.')

prop('C06', 'Both players play by the same rules (flip symmetry)',
     '''Flipping a board twice gives the board back, and flipping once swaps the two players in every field and changes
     nothing else. Every question asked and every action made on the flipped board gives the flipped answer.''',
     ['inputs', 'histories'], 'every combination of the fields in the bound; every question, step and action, asked of both sides',
     '''Tests ask nearly everything from one side only, so code that treats one side differently passes.''',
     ['bglib/model/board.py', 'bglib/model/move.py', 'bglib/model/util.py'],
     [dict(name='flip, to_act / get_opp arithmetic', where='bglib/model/board.py')],
     'explicit enumeration of board states; commutation of every operation with the flip checked on the real code',
     TRUST + 'and uses a menu of positions with all combinations of the other fields.')

prop('C07', 'Boards are immutable values and copies are independent',
     '''Whatever is done to any board or editor, no other board or editor changes, and no operation can change an immutable board. Two boards
     are equal exactly when all their fields are equal, and equal boards hash equally. A new board always has the documented
     initial values.''',
     ['histories'], 'every sequence of construct, copy, freeze, edit, move and mutate operations to a depth over a small family of boards',
     '''Aliasing shows only in a sequence of operations on several objects made from each other; tests use one object at a
     time.''',
     ['bglib/model/board.py', 'bglib/model/boardeditor.py'],
     [dict(name='Board, BoardEditor, defaults, freeze, equality and hash', where='bglib/model/board.py')],
     'exhaustive enumeration of operation sequences to a depth on real objects, against plain values',
     TRUST + 'and bounds the depth of the sequences and the number of objects.')

prop('C08', 'Names of points and text of moves read back',
     '''Every point has one name for each player and the name reads back as that point; flipping a point swaps the owners
     in its name. Every step and move is written in the standard notation and a step written is distinguished from every other.
     Appending a step to a move cancels it when it is the inverse of one already there and otherwise adds it.''',
     ['inputs'], 'every point number, player, step and all moves of up to three steps',
     '''Tests spot-check some names; off-by-one at the ends (bar, home, off) are not tested for both players.''',
     ['bglib/model/util.py', 'bglib/model/move.py'],
     [dict(name='position_ntop/pton, move_ntop/pton', where='bglib/model/util.py'),
      dict(name='PartialMove, Move', where='bglib/model/move.py')],
     'complete enumeration of points, steps and short moves on the real code',
     TRUST + 'and is complete for the names.')

# ------------------------------------------------------------------ encodings
prop('C09', 'Position IDs are exact both ways; any other text is answered safely',
     '''The position ID of every position is the one GNU Backgammon gives it: 14 characters whatever the number of
     chequers. Reading it gives the position back. Any other text is answered in finite time with a position it really encodes or with an
     error.''',
     ['inputs'], '''every position with stacks of any height on any points in the bound; every truncation, deletion, insertion and
     single-character change of sample IDs''',
     '''Tests compare a few known IDs; bit packing goes wrong only at particular lengths, and hostile text (which made the decoder
     hang) is not tested.''',
     ['bglib/encoding/gnubgid.py'],
     [dict(name='encode_position, decode_position', where='bglib/encoding/gnubgid.py')],
     'exhaustive enumeration of bounded positions and of all small edits of IDs, against an independent codec',
     TRUST + 'and replaces the absent bit-array dependency (tonic) by a stub under which the repository\'s own encoding tests pass.')

prop('C10', 'A board survives (position ID, match ID) and back',
     '''The match ID of every board is the one GNU Backgammon gives the same cube, turn, dice, score and game state.
     Decoding a position ID and match ID gives back the board that was encoded, seen from the right player.
     Encoding does not change the board.''',
     ['inputs'], 'the full product of the fields of a match ID, all rolls, and scores and lengths to 32767 around every boundary',
     '''Tests check a few IDs; the fields are packed bit by bit and interact (turn, cube owner, resignation), which only the full product
     reaches.''',
     ['bglib/encoding/gnubgid.py'],
     [dict(name='encode_match, decode_match, encode, decode', where='bglib/encoding/gnubgid.py')],
     'exhaustive product of the fields on the real codec, against an independent one',
     TRUST + 'and the stub of the absent bit-array dependency.')

prop('C11', 'Every XGID is read as the board it describes or refused',
     '''Every well-formed XGID is read as the board it describes, whichever player is to act, and agrees with the GNU Backgammon IDs of the
     same board. What was in the board read into does not matter. A field that cannot be read is refused with an encoding
     error and nothing else.''',
     ['inputs', 'histories'], 'every stack on every point for either player, the product of the other fields, used and new boards, unreadable values in each field',
     '''Tests read a few sample IDs into new boards; combinations of turn, cube, score and used boards are not covered.''',
     ['bglib/encoding/xgid.py'],
     [dict(name='decode and the per-field decoders', where='bglib/encoding/xgid.py')],
     'exhaustive enumeration of the fields on the real decoder, against a reference and differentially against gnubg IDs',
     TRUST + 'the published XGID description and the stub of the absent bit-array dependency.')

prop('C12', 'A FIBS board line is read as the board it describes',
     '''A FIBS board line is read as the same board whichever colour and direction you have and whoever is to play: chequers, bar, borne-off, dice,
     cube and who may double, score and length. Earlier boards read leave no trace in it. The other facts of a line (names,
     score, dice) are read as written.''',
     ['inputs', 'histories'], 'every stack on every point for either side under all four colour/direction pairings, both turns, all rolls, cubes and rights to double',
     '''Tests read a few captured lines, all with one colour and direction pairing or before the opponent's turn.''',
     ['bglib/encoding/FIBS.py'],
     [dict(name='FIBS decode and its helpers', where='bglib/encoding/FIBS.py')],
     'exhaustive enumeration of board lines on the real decoder, against the board they were written from',
     TRUST + 'and the FIBS board format as published.')

prop('C13', 'The database form of a position is exact both ways',
     '''The stored form of every board reads back as the same board, seen from the player to act, field by field. The bytes of a
     position are a function of the position alone. The distance of two positions is the sum over the points of the
     squared difference of their chequers.''',
     ['inputs'], 'all stacks of 1-15 on every point for either side, all pairs, all 65536 pairs of byte values, product of the other fields',
     '''Tests convert a few positions; sign and offset errors appear only for some heights, points and turns.''',
     ['bglib/encoding/dbbyte.py'],
     [dict(name='encode_position, decode_position, distance, record class', where='bglib/encoding/dbbyte.py')],
     'exhaustive enumeration of positions and byte pairs on the real code, against a reference',
     TRUST + 'and positions with up to two kinds of stack per side.')

prop('C14', 'Bear-off databases: indexes are a bijection, records read exactly',
     '''Every home-board position has its own index in the bear-off table, in the order of the table and without gaps, and likewise
     in Nori's numbering, from which it is read back. Reading a record
     returns exactly the bytes stored for it however the file answers (short reads), and a file that ends too early is never
     answered with invented data.''',
     ['inputs', 'fault_sequences'], 'all home-board positions of the table sizes in the bound; every record of small files; every short read and truncation',
     '''Tests look up single positions in one real file and never meet a short read or a truncated file.''',
     ['bglib/encoding/bearoff/__init__.py', 'bglib/encoding/bearoff/gnubgdb.py', 'bglib/encoding/bearoff/nori.py', 'bglib/encoding/bearoff/trice.py'],
     [dict(name='oneside_index, D, combinations', where='bglib/encoding/bearoff/'),
      dict(name='record readers', where='bglib/encoding/bearoff/gnubgdb.py')],
     'exhaustive enumeration of positions, and of environment answers (short reads, truncation) on the real readers',
     TRUST + 'and files of up to four records.')

exec(open(os.path.join(VERIF, 'mc', 'meta_more.py'), encoding='utf-8').read())


def main():
    P.sort(key=lambda p: p['id'])
    refused = dict((n['property'], n) for n in NOT)
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w', encoding='utf-8') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(dict(
                id=p['id'], title=p['title'], statement=p['statement'],
                quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                anchors=dict(files=p['files'], mechanism=p['mechanism'], observe_at=p['observe'],
                             hook_needed=None))) + '\n')
    manifest = dict(
        version=1, setup_cmd='true',
        checks=[dict(property=p['id'],
                     quick_cmd='python3 mc/run.py %s --tier quick' % p['id'],
                     thorough_cmd='python3 mc/run.py %s --tier thorough' % p['id'],
                     evidence_file='evidence/%s.json' % p['id'],
                     technique='model checking: ' + p['technique'], level='model_checking',
                     level_note=p['note']) for p in P if p['id'] not in refused],
        not_applicable=NOT,
        notes='No hooks in /repo: every seam needed (random, locks, files) is reached from outside. '
              'See DESIGN.md; findings in known_findings.txt; replay with: python3 mc/run.py --replay FILE.')
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')


main()
