From 3a5cd492439b6f3e0021bdc281ab62e74d782238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:07 +0000
Subject: [PATCH 01/51] fix: reject illegal promotions, dead-end moves and
 malformed moves in the external-input legality check

---
 src/position.cpp | 41 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/src/position.cpp b/src/position.cpp
index 8cca77f..c1c9eab 100644
--- a/src/position.cpp
+++ b/src/position.cpp
@@ -347,6 +347,21 @@ bool Position::checkMoveIsEvasion(const Move move) const {
     return true;
 }
 
+namespace {
+    // 行きどころの無い駒になるか
+    inline bool isDeadEnd(const Color us, const PieceType pt, const Square to) {
+        const Rank toRank = makeRank(to);
+        switch (pt) {
+        case Pawn: case Lance:
+            return us == Black ? isInFrontOf<Black, Rank2, Rank8>(toRank) : isInFrontOf<White, Rank2, Rank8>(toRank);
+        case Knight:
+            return us == Black ? isInFrontOf<Black, Rank3, Rank7>(toRank) : isInFrontOf<White, Rank3, Rank7>(toRank);
+        default:
+            return false;
+        }
+    }
+}
+
 // Searching: true なら探索時に内部で生成した手の合法手判定を行う。
 //            ttMove で hash 値が衝突した時などで、大駒の不成など明らかに価値の低い手が生成される事がある。
 //            これは非合法手として省いて良い。
@@ -356,8 +371,19 @@ template <bool Searching> bool Position::moveIsPseudoLegal(const Move move) cons
     const Color them = oppositeColor(us);
     const Square to = move.to();
 
+    if (!Searching && !isInSquare(to))
+        return false;
+
     if (move.isDrop()) {
         const PieceType ptFrom = move.pieceTypeDropped();
+        if (!Searching) {
+            // 打てる駒は歩から金まで。打つ手は成ることも駒を取ることも出来無い。
+            if (ptFrom > Gold || move != makeDropMove(ptFrom, to))
+                return false;
+            if (isDeadEnd(us, ptFrom, to))
+                // 行きどころの無い駒
+                return false;
+        }
         if (!hand(us).exists(pieceTypeToHandPiece(ptFrom)) || piece(to) != Empty)
             return false;
 
@@ -391,6 +417,13 @@ template <bool Searching> bool Position::moveIsPseudoLegal(const Move move) cons
         const PieceType ptFrom = move.pieceTypeFrom();
         if (piece(from) != colorAndPieceTypeToPiece(us, ptFrom) || bbOf(us).isSet(to))
             return false;
+        if (!Searching) {
+            // 駒を動かしているか。取る駒が局面と一致しているか。
+            const Move moveInPos = (move.isPromotion() ? makeCapturePromoteMove(ptFrom, from, to, *this) :
+                                    makeCaptureMove(ptFrom, from, to, *this));
+            if (ptFrom == Occupied || move != moveInPos)
+                return false;
+        }
 
         if (!attacksFrom(ptFrom, us, from).isSet(to))
             return false;
@@ -434,6 +467,14 @@ template <bool Searching> bool Position::moveIsPseudoLegal(const Move move) cons
                     return false;
             }
         }
+        else if (move.isPromotion()) {
+            if (ptFrom == Gold || ptFrom >= King || !canPromote(us, from, to))
+                // 成れない駒、又は敵陣に関係しない移動
+                return false;
+        }
+        else if (isDeadEnd(us, ptFrom, to))
+            // 行きどころの無い駒
+            return false;
 
         if (inCheck()) {
             if (ptFrom == King) {
-- 
2.43.0


From 582032f71c636c2fc03a4b6b8c7ec81dfe912370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:07 +0000
Subject: [PATCH 02/51] fix: reject USI drop moves with trailing characters or
 a lower-case piece letter

---
 src/usi.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/usi.cpp b/src/usi.cpp
index ea87588..45d3584 100644
--- a/src/usi.cpp
+++ b/src/usi.cpp
@@ -62,10 +62,14 @@ namespace {
 
 Move usiToMoveBody(const Position& pos, const std::string& moveStr) {
     Move move;
+    if (moveStr.size() != 4 && moveStr.size() != 5)
+        return Move::moveNone();
     if (g_charToPieceUSI.isLegalChar(moveStr[0])) {
         // drop
-        const PieceType ptTo = pieceToPieceType(g_charToPieceUSI.value(moveStr[0]));
-        if (moveStr[1] != '*')
+        const Piece dropped = g_charToPieceUSI.value(moveStr[0]);
+        const PieceType ptTo = pieceToPieceType(dropped);
+        // 打つ駒は手番によらず大文字
+        if (pieceToColor(dropped) != Black || moveStr[1] != '*' || moveStr.size() != 4)
             return Move::moveNone();
         const File toFile = charUSIToFile(moveStr[2]);
         const Rank toRank = charUSIToRank(moveStr[3]);
@@ -85,13 +89,10 @@ Move usiToMoveBody(const Position& pos, const std::string& moveStr) {
         if (!isInSquare(toFile, toRank))
             return Move::moveNone();
         const Square to = makeSquare(toFile, toRank);
-        if (moveStr[4] == '\0')
+        if (moveStr.size() == 4)
             move = makeNonPromoteMove<Capture>(pieceToPieceType(pos.piece(from)), from, to, pos);
-        else if (moveStr[4] == '+') {
-            if (moveStr[5] != '\0')
-                return Move::moveNone();
+        else if (moveStr[4] == '+')
             move = makePromoteMove<Capture>(pieceToPieceType(pos.piece(from)), from, to, pos);
-        }
         else
             return Move::moveNone();
     }
-- 
2.43.0


From 9bab327a0a2cbc475248ac53cd2f0672121711c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:07 +0000
Subject: [PATCH 03/51] fix: report an incorrect SFEN passed to set_sfen as an
 exception instead of aborting the process

---
 cshogi/_cshogi.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cshogi/_cshogi.pyx b/cshogi/_cshogi.pyx
index 9a56bcb..02c3c48 100644
--- a/cshogi/_cshogi.pyx
+++ b/cshogi/_cshogi.pyx
@@ -260,7 +260,7 @@ cdef extern from "cshogi.h":
         __Board() except +
         __Board(const string& sfen) except +
         __Board(const __Board& board) except +
-        void set(const string& sfen)
+        void set(const string& sfen) except +
         void set_position(const string& position) except +
         void set_pieces(const int pieces[], const int pieces_in_hand[][7])
         void set_hcp(char* hcp) except +
-- 
2.43.0


From 2e3837fefd06d85e738deff0b7ac01769a56aa82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:07 +0000
Subject: [PATCH 04/51] fix: keep two-digit hand counts in rotate_sfen

---
 src/cshogi.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/cshogi.h b/src/cshogi.h
index 332665e..01204dd 100644
--- a/src/cshogi.h
+++ b/src/cshogi.h
@@ -610,17 +610,20 @@ std::string __rotate_sfen(const std::string& sfen) {
         for (int i = 0; i < hand.length(); i++) {
             char c = hand[i];
 
-            if (c >= '2' && c <= '9') {
-                // 数字の場合、次の駒と組み合わせる
-                i++;
+            if (c >= '0' && c <= '9') {
+                // 数字の場合(2桁もある)、次の駒と組み合わせる
+                std::string digits;
+                while (i < hand.length() && hand[i] >= '0' && hand[i] <= '9') {
+                    digits += hand[i++];
+                }
                 if (i < hand.length()) {
                     char piece = hand[i];
                     if (piece >= 'A' && piece <= 'Z') {
-                        senteHand += c;
+                        senteHand += digits;
                         senteHand += piece;
                     }
                     else {
-                        goteHand += c;
+                        goteHand += digits;
                         goteHand += piece;
                     }
                 }
-- 
2.43.0


From d20dd060fa50c7cc7cfb7e1f2ed74cff67c434f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:07 +0000
Subject: [PATCH 05/51] fix: move_is_draw reports perpetual checks and
 superior/inferior repetitions like is_draw

---
 src/position.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/position.cpp b/src/position.cpp
index c1c9eab..09ac38c 100644
--- a/src/position.cpp
+++ b/src/position.cpp
@@ -3320,19 +3320,28 @@ RepetitionType Position::moveIsDraw(const Move move, const int checkMaxPly) cons
         // 現在の局面と、少なくとも 4 手戻らないと同じ局面にならない。
         // ここでまず 1 手戻る。
         StateInfo* stp = st_->previous;
-        Key key = getKeyAfter(move);
+        const Key key = getKeyAfter(move);
+        const Key boardKey = getBoardKeyAfter(move);
+        // 指した後の手番側の持ち駒
+        const Hand hand = this->hand(oppositeColor(turn()));
 
         do {
             // 更に 2 手戻る。
             stp = stp->previous->previous;
             if (stp->key() == key) {
-                if (i <= st_->continuousCheck[turn()])
-                    return RepetitionWin;
-                else if (i <= st_->continuousCheck[oppositeColor(turn())])
+                // 同一局面なので、指し手が王手かどうかも過去の局面と同じ。
+                const int continuousCheckAfter = (stp->checkersBB ? st_->continuousCheck[turn()] + 2 : 0);
+                if (i <= st_->continuousCheck[oppositeColor(turn())])
                     return RepetitionLose;
+                else if (i <= continuousCheckAfter)
+                    return RepetitionWin;
                 else
                     return RepetitionDraw;
             }
+            else if (stp->boardKey == boardKey) {
+                if (hand.isEqualOrSuperior(stp->hand)) return RepetitionSuperior;
+                if (stp->hand.isEqualOrSuperior(hand)) return RepetitionInferior;
+            }
             i += 2;
         } while (i <= e);
     }
-- 
2.43.0


From a6283a252838a2d80a471d5dbbd04d0fe94fdd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:29 +0000
Subject: [PATCH 06/51] fix: reject malformed packed positions (king squares
 off the board, truncated codes) instead of reading and writing out of bounds

---
 src/position.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/position.cpp b/src/position.cpp
index 09ac38c..fe537ab 100644
--- a/src/position.cpp
+++ b/src/position.cpp
@@ -3496,6 +3496,8 @@ void Position::set_hcp(const char* hcp_data) {
     // 玉の位置
     Square sq0 = (Square)bs.getBits(7);
     Square sq1 = (Square)bs.getBits(7);
+    if (!isInSquare(sq0) || !isInSquare(sq1) || sq0 == sq1)
+        goto INCORRECT_HUFFMAN_CODE;
     setPiece(BKing, static_cast<Square>(sq0));
     setPiece(WKing, static_cast<Square>(sq1));
 
@@ -3505,6 +3507,8 @@ void Position::set_hcp(const char* hcp_data) {
             continue;
         HuffmanCode hc = {0, 0};
         while (hc.numOfBits <= 8) {
+            if (bs.data() == std::end(tmp.data))
+                goto INCORRECT_HUFFMAN_CODE;
             hc.code |= bs.getBit() << hc.numOfBits++;
             if (HuffmanCodedPos::boardCodeToPieceHash.value(hc.key) != PieceNone) {
                 const Piece pc = HuffmanCodedPos::boardCodeToPieceHash.value(hc.key);
@@ -3519,6 +3523,8 @@ void Position::set_hcp(const char* hcp_data) {
     while (bs.data() != std::end(tmp.data)) {
         HuffmanCode hc = {0, 0};
         while (hc.numOfBits <= 8) {
+            if (bs.data() == std::end(tmp.data))
+                goto INCORRECT_HUFFMAN_CODE;
             hc.code |= bs.getBit() << hc.numOfBits++;
             const Piece pc = HuffmanCodedPos::handCodeToPieceHash.value(hc.key);
             if (pc == Empty)
@@ -3562,6 +3568,8 @@ void Position::set_psfen(const char* psfen_data) {
     // 玉の位置
     Square sq0 = (Square)bs.getBits(7);
     Square sq1 = (Square)bs.getBits(7);
+    if (!isInSquare(sq0) || !isInSquare(sq1) || sq0 == sq1)
+        goto INCORRECT_HUFFMAN_CODE;
     setPiece(BKing, static_cast<Square>(sq0));
     setPiece(WKing, static_cast<Square>(sq1));
 
@@ -3571,6 +3579,8 @@ void Position::set_psfen(const char* psfen_data) {
             continue;
         HuffmanCode hc = { 0, 0 };
         while (hc.numOfBits <= 8) {
+            if (bs.data() == std::end(tmp.data))
+                goto INCORRECT_HUFFMAN_CODE;
             hc.code |= bs.getBit() << hc.numOfBits++;
             if (PackedSfen::boardCodeToPieceHash.value(hc.key) != PieceNone) {
                 const Piece pc = PackedSfen::boardCodeToPieceHash.value(hc.key);
@@ -3585,6 +3595,8 @@ void Position::set_psfen(const char* psfen_data) {
     while (bs.data() != std::end(tmp.data)) {
         HuffmanCode hc = { 0, 0 };
         while (hc.numOfBits <= 8) {
+            if (bs.data() == std::end(tmp.data))
+                goto INCORRECT_HUFFMAN_CODE;
             hc.code |= bs.getBit() << hc.numOfBits++;
             const Piece pc = PackedSfen::handCodeToPieceHash.value(hc.key);
             if (pc == Empty)
-- 
2.43.0


From 37609eb648df7555574f7a57ad4f751dd1467bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:29 +0000
Subject: [PATCH 07/51] fix: raise instead of writing past the packed-position
 buffer when a king is missing

---
 cshogi/_cshogi.pyx | 4 ++--
 src/position.cpp   | 8 ++++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/cshogi/_cshogi.pyx b/cshogi/_cshogi.pyx
index 02c3c48..d1f56c2 100644
--- a/cshogi/_cshogi.pyx
+++ b/cshogi/_cshogi.pyx
@@ -286,8 +286,8 @@ cdef extern from "cshogi.h":
         void setPly(const int ply)
         string toSFEN()
         string toCSAPos()
-        void toHuffmanCodedPos(char* data)
-        void toPackedSfen(char* data)
+        void toHuffmanCodedPos(char* data) except +
+        void toPackedSfen(char* data) except +
         int piece(const int sq)
         int kingSquare(const int c)
         bool inCheck()
diff --git a/src/position.cpp b/src/position.cpp
index fe537ab..1a80a7e 100644
--- a/src/position.cpp
+++ b/src/position.cpp
@@ -3056,6 +3056,10 @@ std::string Position::toCSAPos() const {
 }
 
 void Position::toHuffmanCodedPos(u8* data) const {
+    // 玉の位置は必ず符号化するため、玉がない局面は 256bit に収まらない。
+    if (!isInSquare(kingSquare(Black)) || !isInSquare(kingSquare(White)))
+        throw std::runtime_error("position without both kings cannot be packed");
+
     std::fill(data, data + 32, 0);
     BitStream bs(data);
     // 手番 (1bit)
@@ -3099,6 +3103,10 @@ void Position::toHuffmanCodedPos(u8* data) const {
 }
 
 void Position::toPackedSfen(u8* data) const {
+    // 玉の位置は必ず符号化するため、玉がない局面は 256bit に収まらない。
+    if (!isInSquare(kingSquare(Black)) || !isInSquare(kingSquare(White)))
+        throw std::runtime_error("position without both kings cannot be packed");
+
     std::fill(data, data + 32, 0);
     BitStream bs(data);
     // 手番 (1bit)
-- 
2.43.0


From 12e63e57cb0968ba402f656a9d4c4a68959963da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:45 +0000
Subject: [PATCH 08/51] fix: reject unknown piece names in CSA records instead
 of dereferencing a missing entry

---
 src/parser.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser.h b/src/parser.h
index 4b644e1..eef64d5 100644
--- a/src/parser.h
+++ b/src/parser.h
@@ -34,7 +34,10 @@ namespace parser {
             (*this)["RY"] = Dragon;
         }
         PieceType value(const std::string& str) const {
-            return this->find(str)->second;
+            const auto itr = this->find(str);
+            if (itr == this->end())
+                throw std::domain_error("Invalid piece: " + str);
+            return itr->second;
         }
     };
     const StringToPieceTypeCSA stringToPieceTypeCSA;
@@ -73,7 +76,10 @@ namespace parser {
             (*this)["-RY"] = WDragon;
         }
         Piece value(const std::string& str) const {
-            return this->find(str)->second;
+            const auto itr = this->find(str);
+            if (itr == this->end())
+                throw std::domain_error("Invalid piece: " + str);
+            return itr->second;
         }
     };
     const StringToPieceCSA stringToPieceCSA;
-- 
2.43.0


From 8cad01ed5e5a9eebf6b7502912f4fb233445dbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:45 +0000
Subject: [PATCH 09/51] fix: reject illegal moves in CSA records instead of
 corrupting the position

---
 src/parser.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser.h b/src/parser.h
index eef64d5..0825711 100644
--- a/src/parser.h
+++ b/src/parser.h
@@ -217,6 +217,8 @@ namespace parser {
                         if (!pos_initialized)
                             throw std::domain_error("Board infomation is not defined before a special move");
                         Move move = csaToMove(pos, line.substr(1, 6));
+                        if (!move)
+                            throw std::domain_error("Illegal move: " + line);
                         moves.push_back(move.value());
                         states->push_back(StateInfo());
                         pos.doMove(move, states->back());
-- 
2.43.0


From a8e5b361ebef23d1d39b66109599695e7fdf91b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:45 +0000
Subject: [PATCH 10/51] fix: do not write before the score list when a CSA
 record has an evaluation comment before its first move

---
 src/parser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.h b/src/parser.h
index 0825711..b9419e3 100644
--- a/src/parser.h
+++ b/src/parser.h
@@ -163,7 +163,7 @@ namespace parser {
                         }
                     }
                     // score
-                    else if (line.substr(0, 4) == "'** ") {
+                    else if (line.substr(0, 4) == "'** " && !moves.empty()) {
                         auto last = line.find_first_of(" ", 4);
                         if (last == std::string::npos)
                             last = line.size();
-- 
2.43.0


From 32e7c2ed0bc50732b5a673ff0571d53fc86920e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:45 +0000
Subject: [PATCH 11/51] fix: place pieces listed square by square in CSA
 records on the squares they name

---
 src/parser.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/parser.h b/src/parser.h
index b9419e3..94696cd 100644
--- a/src/parser.h
+++ b/src/parser.h
@@ -294,7 +294,7 @@ namespace parser {
             int file_index;
             Piece piece;
             int pieces_in_hand[PieceNone] = {};
-            Piece pieces_in_board[9][9];
+            Piece pieces_in_board[9][9] = {};
 
             // ex.) P1 - KY - KE - GI - KI - OU - KI - GI - KE - KY
             for (auto line : position_block_lines) {
@@ -320,18 +320,21 @@ namespace parser {
                     if (itrColor != COLOR_SYMBOLS.end()) {
                         int index = 2;
                         while (index < line.size()) {
-                            rank_index = std::stoi(line.substr(index, 1));
-                            index += 1;
                             file_index = std::stoi(line.substr(index, 1));
                             index += 1;
+                            rank_index = std::stoi(line.substr(index, 1));
+                            index += 1;
                             piece = stringToPieceCSA.value((*itrColor) + line.substr(index, 2));
                             index += 2;
                             if (rank_index == 0 && file_index == 0) {
                                 // piece in hand
                                 pieces_in_hand[piece] += 1;
                             }
+                            else if (rank_index == 0 || file_index == 0) {
+                                throw std::domain_error("Invalid square: " + line);
+                            }
                             else {
-                                pieces_in_board[(rank_index - 1)][(file_index - 1)] = piece;
+                                pieces_in_board[(rank_index - 1)][(9 - file_index)] = piece;
                             }
                         }
                     }
-- 
2.43.0


From bee0e657b85fe94c174e33f0c36f003c9159e874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:45 +0000
Subject: [PATCH 12/51] fix: read the time and the comment that follow a CSA
 move in the same line

---
 src/parser.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/parser.h b/src/parser.h
index 94696cd..6063e99 100644
--- a/src/parser.h
+++ b/src/parser.h
@@ -226,8 +226,16 @@ namespace parser {
                         scores.resize(moves.size());
                         // Comment
                         comments.resize(moves.size());
-                        if (line.substr(7, 2) == ",\'") {
-                            comments[moves.size() - 1] = line.substr(9);
+                        // Time and comment in the same line
+                        size_t item = 7;
+                        while (item < line.size() && line[item] == ',') {
+                            if (line.compare(item, 2, ",\'") == 0) {
+                                comments[moves.size() - 1] = line.substr(item + 2);
+                                break;
+                            }
+                            if (line.compare(item, 2, ",T") == 0)
+                                times.back() = std::stoi(line.substr(item + 2));
+                            item = line.find_first_of(',', item + 1);
                         }
                     }
                 }
-- 
2.43.0


From 255ac74549f3db3a069fdac3a3700cf9d564cc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:45 +0000
Subject: [PATCH 13/51] fix: decode the comments of CSA moves as UTF-8

---
 cshogi/_cshogi.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cshogi/_cshogi.pyx b/cshogi/_cshogi.pyx
index d1f56c2..de0d7e4 100644
--- a/cshogi/_cshogi.pyx
+++ b/cshogi/_cshogi.pyx
@@ -1597,7 +1597,7 @@ cdef class Parser:
         :return: The list of comments for each move of the game.
         :rtype: list
         """
-        return [comment.decode('ascii') for comment in self.__parser.comments]
+        return [comment.decode('utf-8') for comment in self.__parser.comments]
 
     @property
     def win(self):
-- 
2.43.0


From 1f9aa5bb2c900a529a9e6fede01d21215b6d907f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:45 +0000
Subject: [PATCH 14/51] fix: accept an initial position given as SFEN text in
 the CSA exporter

---
 cshogi/CSA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cshogi/CSA.py b/cshogi/CSA.py
index 2a5a820..b9051b1 100644
--- a/cshogi/CSA.py
+++ b/cshogi/CSA.py
@@ -86,7 +86,7 @@ class Exporter:
                 self.f.write('PI\n+\n')
             else:
                 self.f.write(csa_pos)
-            self.turn = init_board.turn
+            self.turn = board.turn
         else:
             self.f.write('PI\n+\n')
             self.turn = cshogi.BLACK
-- 
2.43.0


From d08f14df58fae7caeeaaf1d18ae4258f8c9a91f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:45 +0000
Subject: [PATCH 15/51] fix: end the header comment of a CSA record with a line
 break

---
 cshogi/CSA.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cshogi/CSA.py b/cshogi/CSA.py
index b9051b1..28b5ef9 100644
--- a/cshogi/CSA.py
+++ b/cshogi/CSA.py
@@ -67,6 +67,7 @@ class Exporter:
             else:
                 self.f.write("'")
                 self.f.write(comment)
+            if comment[-1] != '\n':
                 self.f.write('\n')
         if var_info:
             for k, v in var_info.items():
-- 
2.43.0


From 6df689c46f60a282450d559a6515745038387830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:09 +0000
Subject: [PATCH 16/51] fix: write the number of moves played when a KIF record
 ends in an impasse

---
 cshogi/KIF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cshogi/KIF.py b/cshogi/KIF.py
index 2c0244e..ba43dc8 100755
--- a/cshogi/KIF.py
+++ b/cshogi/KIF.py
@@ -501,7 +501,7 @@ class Exporter:
         if reason == 'resign':
             self.kifu.write('まで{}手で{}の勝ち\n'.format(self.move_number - 1, '先手' if self.move_number % 2 == 0 else '後手'))
         elif reason == 'draw':
-            self.kifu.write('まで{}手で持将棋\n'.format(self.move_number + 1))
+            self.kifu.write('まで{}手で持将棋\n'.format(self.move_number - 1))
         elif reason == 'win':
             self.kifu.write('まで{}手で入玉宣言\n'.format(self.move_number - 1))
         elif reason == 'sennichite':
-- 
2.43.0


From eb0036c852fefeb26c3bc929bc26a8322492229c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:09 +0000
Subject: [PATCH 17/51] fix: report an impasse in a KIF record as an impasse,
 not as a repetition

---
 cshogi/KIF.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cshogi/KIF.py b/cshogi/KIF.py
index ba43dc8..eb98617 100755
--- a/cshogi/KIF.py
+++ b/cshogi/KIF.py
@@ -278,6 +278,9 @@ class Parser:
                             else:
                                 win = WHITE_WIN
                                 endgame = '%-ILLEGAL_ACTION' if m.group(4) == '反則勝ち' else ('%KACHI' if m.group(4) == '入玉勝ち' else '%TORYO')
+                        elif m.group(2) == '持将棋':
+                            win = DRAW
+                            endgame = '%JISHOGI'
                         elif m.group(2) == '中断':
                             win = None
                             endgame = '%CHUDAN'
-- 
2.43.0


From bdb623259f9fad02b2924e61d3f1b34cef903672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:09 +0000
Subject: [PATCH 18/51] fix: name the side that broke the rules when a KIF
 record is won by a foul

---
 cshogi/KIF.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cshogi/KIF.py b/cshogi/KIF.py
index eb98617..78f68d8 100755
--- a/cshogi/KIF.py
+++ b/cshogi/KIF.py
@@ -270,14 +270,14 @@ class Parser:
                                 endgame = '%ILLEGAL_MOVE'
                             else:
                                 win = BLACK_WIN
-                                endgame = '%+ILLEGAL_ACTION' if m.group(4) == '反則勝ち' else ('%KACHI' if m.group(4) == '入玉勝ち' else '%TORYO')
+                                endgame = '%-ILLEGAL_ACTION' if m.group(4) == '反則勝ち' else ('%KACHI' if m.group(4) == '入玉勝ち' else '%TORYO')
                         elif win_side_str == '後' or win_side_str == '上':
                             if m.group(4) == '反則負け':
                                 win = BLACK_WIN
                                 endgame = '%ILLEGAL_MOVE'
                             else:
                                 win = WHITE_WIN
-                                endgame = '%-ILLEGAL_ACTION' if m.group(4) == '反則勝ち' else ('%KACHI' if m.group(4) == '入玉勝ち' else '%TORYO')
+                                endgame = '%+ILLEGAL_ACTION' if m.group(4) == '反則勝ち' else ('%KACHI' if m.group(4) == '入玉勝ち' else '%TORYO')
                         elif m.group(2) == '持将棋':
                             win = DRAW
                             endgame = '%JISHOGI'
-- 
2.43.0


From 435b2aa32c0128af366b44b2d809481938fc8d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:09 +0000
Subject: [PATCH 19/51] fix: name the winner and sign the score by the side to
 move in KIF records where White moves first

---
 cshogi/KIF.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cshogi/KIF.py b/cshogi/KIF.py
index 78f68d8..ec540df 100755
--- a/cshogi/KIF.py
+++ b/cshogi/KIF.py
@@ -415,6 +415,7 @@ class Exporter:
         self.kifu = open(path, 'w', encoding=enc)
         self.prev_move = None
         self.move_number = 1
+        self.turn = cshogi.BLACK
 
     def close(self):
         """Close the file."""
@@ -431,14 +432,18 @@ class Exporter:
             starttime = datetime.now()
         self.kifu.write('開始日時：' + starttime.strftime('%Y/%m/%d %H:%M:%S\n'))
         if handicap is None:
+            self.turn = cshogi.BLACK
             self.kifu.write('手合割：平手\n')
         elif type(handicap) is Board or type(handicap) is str and handicap[:5] == 'sfen ':
             if type(handicap) is Board:
                 board = handicap
             else:
                 board = Board(sfen=handicap[5:])
+            self.turn = board.turn
             self.kifu.write(board_to_bod(board) + '\n')
         else:
+            sfen = Parser.HANDYCAP_SFENS.get(handicap)
+            self.turn = Board(sfen=sfen).turn if sfen else cshogi.BLACK
             self.kifu.write('手合割：' + handicap + '\n')
         self.kifu.write('先手：' + names[0] + '\n')
         self.kifu.write('後手：' + names[1] + '\n')
@@ -470,6 +475,7 @@ class Exporter:
 
         self.move_number += 1
         self.prev_move = move
+        self.turn = cshogi.opponent(self.turn)
 
     def end(self, reason: str, sec: int = 0, sec_sum: int = 0):
         """Record the end of the game.
@@ -502,7 +508,7 @@ class Exporter:
 
         # 結果出力
         if reason == 'resign':
-            self.kifu.write('まで{}手で{}の勝ち\n'.format(self.move_number - 1, '先手' if self.move_number % 2 == 0 else '後手'))
+            self.kifu.write('まで{}手で{}の勝ち\n'.format(self.move_number - 1, '先手' if self.turn == cshogi.WHITE else '後手'))
         elif reason == 'draw':
             self.kifu.write('まで{}手で持将棋\n'.format(self.move_number - 1))
         elif reason == 'win':
@@ -519,7 +525,7 @@ class Exporter:
 
         :param info: A string containing additional information.
         """
-        turn = self.move_number % 2
+        turn = cshogi.opponent(self.turn)
         items = info.split(' ')
         comment = '**対局'
         i = 1
-- 
2.43.0


From 32d155f9611ef0e55d6e23afc29c4d2c7ef5cd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:09 +0000
Subject: [PATCH 20/51] fix: attribute a foul to the side its move line belongs
 to in KIF records

---
 cshogi/KIF.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cshogi/KIF.py b/cshogi/KIF.py
index ec540df..b467c19 100755
--- a/cshogi/KIF.py
+++ b/cshogi/KIF.py
@@ -516,9 +516,9 @@ class Exporter:
         elif reason == 'sennichite':
             self.kifu.write('まで{}手で千日手\n'.format(self.move_number - 1))
         elif reason == 'illegal_win':
-            self.kifu.write('まで{}手で{}の反則勝ち\n'.format(self.move_number - 1, '先手' if self.move_number % 2 == 0 else '後手'))
+            self.kifu.write('まで{}手で{}の反則勝ち\n'.format(self.move_number - 1, '先手' if self.turn == cshogi.BLACK else '後手'))
         elif reason == 'illegal_lose':
-            self.kifu.write('まで{}手で{}の反則負け\n'.format(self.move_number - 1, '先手' if self.move_number % 2 == 0 else '後手'))
+            self.kifu.write('まで{}手で{}の反則負け\n'.format(self.move_number - 1, '先手' if self.turn == cshogi.BLACK else '後手'))
 
     def info(self, info):
         """Record additional information related to the game.
-- 
2.43.0


From ceb2d2323b684b473e4a1f5469338bf58aa440fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:09 +0000
Subject: [PATCH 21/51] fix: write a win by declaration in the form the KIF
 parser reads

---
 cshogi/KIF.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cshogi/KIF.py b/cshogi/KIF.py
index b467c19..9dd24c5 100755
--- a/cshogi/KIF.py
+++ b/cshogi/KIF.py
@@ -62,7 +62,7 @@ class ParserException(Exception):
 class Parser:
     """A class for parsing Japanese Shogi notation in KIF format."""
 
-    MOVE_RE = re.compile(r'\A *[0-9]+\s+(中断|投了|持将棋|千日手|詰み|切れ負け|反則勝ち|反則負け|(([１２３４５６７８９])([零一二三四五六七八九])|同　)([歩香桂銀金角飛玉と杏圭全馬龍])(打|(成?)\(([0-9])([0-9])\)))\s*(\( *([:0-9]+)/([:0-9]+)\))?.*\Z')
+    MOVE_RE = re.compile(r'\A *[0-9]+\s+(入玉勝ち|中断|投了|持将棋|千日手|詰み|切れ負け|反則勝ち|反則負け|(([１２３４５６７８９])([零一二三四五六七八九])|同　)([歩香桂銀金角飛玉と杏圭全馬龍])(打|(成?)\(([0-9])([0-9])\)))\s*(\( *([:0-9]+)/([:0-9]+)\))?.*\Z')
 
     HANDYCAP_SFENS = {
         '平手': cshogi.STARTING_SFEN,
@@ -490,7 +490,7 @@ class Exporter:
         if reason == 'resign':
             move_str = '投了        '
         elif reason == 'win':
-            move_str = '入玉宣言    '
+            move_str = '入玉勝ち    '
         elif reason == 'draw':
             move_str = '持将棋      '
         elif reason == 'sennichite':
@@ -512,7 +512,7 @@ class Exporter:
         elif reason == 'draw':
             self.kifu.write('まで{}手で持将棋\n'.format(self.move_number - 1))
         elif reason == 'win':
-            self.kifu.write('まで{}手で入玉宣言\n'.format(self.move_number - 1))
+            self.kifu.write('まで{}手で{}の入玉勝ち\n'.format(self.move_number - 1, '先手' if self.turn == cshogi.BLACK else '後手'))
         elif reason == 'sennichite':
             self.kifu.write('まで{}手で千日手\n'.format(self.move_number - 1))
         elif reason == 'illegal_win':
-- 
2.43.0


From 8a804a0f463044419b1cf22e2796ef53929b1202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:09 +0000
Subject: [PATCH 22/51] fix: keep the sign and every digit of a mate score in
 KIF comments

---
 cshogi/KIF.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cshogi/KIF.py b/cshogi/KIF.py
index 9dd24c5..cbe2606 100755
--- a/cshogi/KIF.py
+++ b/cshogi/KIF.py
@@ -550,11 +550,11 @@ class Exporter:
                     comment += ' 評価値 {}'.format(items[i] if turn == cshogi.BLACK else -int(items[i]))
                 elif items[i] == 'mate':
                     i += 1
-                    if items[i][0:1] == '+':
+                    if items[i][0:1] != '-':
                         comment += ' +詰' if turn == cshogi.BLACK else ' -詰'
                     else:
                         comment += ' -詰' if turn == cshogi.BLACK else ' +詰'
-                    comment += str(items[i][1:])
+                    comment += items[i].lstrip('+-')
             else:
                 i += 1
         self.kifu.write(comment + '\n')
-- 
2.43.0


From 26a5cb12b8e44d3c6667f83f390d1e478a4ba815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:09 +0000
Subject: [PATCH 23/51] fix: ignore drops when a KI2 move without the drop mark
 is resolved by its direction

---
 cshogi/KI2.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cshogi/KI2.py b/cshogi/KI2.py
index 47f55a5..75e5cd4 100644
--- a/cshogi/KI2.py
+++ b/cshogi/KI2.py
@@ -97,6 +97,9 @@ class Parser:
                 # 候補手
                 candidates = [move for move in board.legal_moves if move_to(move) == to_square and (not move_is_drop(move) and move_from_piece_type(move) == piece_type or move_is_drop(move) and hand_piece_to_piece_type(move_drop_hand_piece(move)) == piece_type)]
 
+                if m.group(8) != '打' and any(not move_is_drop(move) for move in candidates):
+                    candidates = [move for move in candidates if not move_is_drop(move)]
+
                 if m.group(6) or m.group(7):
                     from_file_min = from_rank_min = 9
                     from_file_max = from_rank_max = 0
-- 
2.43.0


From b191761b3fbf538d05185fe808275ae03604b5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:09 +0000
Subject: [PATCH 24/51] fix: name the side that broke the rules when a KI2
 record is won by a foul

---
 cshogi/KI2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cshogi/KI2.py b/cshogi/KI2.py
index 75e5cd4..15505d1 100644
--- a/cshogi/KI2.py
+++ b/cshogi/KI2.py
@@ -228,14 +228,14 @@ class Parser:
                             endgame = '%ILLEGAL_MOVE'
                         else:
                             win = BLACK_WIN
-                            endgame = '%+ILLEGAL_ACTION' if m.group(4) == '反則勝ち' else ('%KACHI' if m.group(4) == '入玉勝ち' else '%TORYO')
+                            endgame = '%-ILLEGAL_ACTION' if m.group(4) == '反則勝ち' else ('%KACHI' if m.group(4) == '入玉勝ち' else '%TORYO')
                     elif win_side_str == '後' or win_side_str == '上':
                         if m.group(4) == '反則負け':
                             win = BLACK_WIN
                             endgame = '%ILLEGAL_MOVE'
                         else:
                             win = WHITE_WIN
-                            endgame = '%-ILLEGAL_ACTION' if m.group(4) == '反則勝ち' else ('%KACHI' if m.group(4) == '入玉勝ち' else '%TORYO')
+                            endgame = '%+ILLEGAL_ACTION' if m.group(4) == '反則勝ち' else ('%KACHI' if m.group(4) == '入玉勝ち' else '%TORYO')
                     elif m.group(2) == '持将棋':
                         win = DRAW
                         endgame = '%JISHOGI'
-- 
2.43.0


From 7fd9f9ec72e0d89f72374ab8ab5ea1c6abc3f47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:09 +0000
Subject: [PATCH 25/51] fix: keep KI2 comments on their moves when a move has
 several comment lines

---
 cshogi/KI2.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cshogi/KI2.py b/cshogi/KI2.py
index 15505d1..1a849a3 100644
--- a/cshogi/KI2.py
+++ b/cshogi/KI2.py
@@ -188,9 +188,13 @@ class Parser:
                     if len(moves) - len(comments) > 1:
                         comments.extend([None]*(len(moves) - len(comments) - 1))
                     if line[:2] == "**":
-                        comments.append(line[2:])
+                        comment = line[2:]
                     else:
-                        comments.append(line[1:])
+                        comment = line[1:]
+                    if len(comments) == len(moves):
+                        comments[-1] += "\n" + comment
+                    else:
+                        comments.append(comment)
                 else:
                     header_comments.append(line[1:])
             elif '：' in line:
-- 
2.43.0


From e7f663bb42277700780347b4c2b6ab0397389a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:09 +0000
Subject: [PATCH 26/51] fix: write the number of moves played when a KI2 record
 ends in an impasse

---
 cshogi/KI2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cshogi/KI2.py b/cshogi/KI2.py
index 1a849a3..232f40d 100644
--- a/cshogi/KI2.py
+++ b/cshogi/KI2.py
@@ -598,7 +598,7 @@ class Exporter:
         if reason == '%TORYO':
             self.kifu.write('まで{}手で{}の勝ち\n'.format(self.board.move_number - 1, '先手' if self.board.turn == cshogi.WHITE else '後手'))
         elif reason == '%JISHOGI':
-            self.kifu.write('まで{}手で持将棋\n'.format(self.board.move_number + 1))
+            self.kifu.write('まで{}手で持将棋\n'.format(self.board.move_number - 1))
         elif reason == '%KACHI':
             self.kifu.write('まで{}手で{}の入玉勝ち\n'.format(self.board.move_number - 1, '先手' if self.board.turn == cshogi.BLACK else '後手'))
         elif reason == '%SENNICHITE':
-- 
2.43.0


From 1a5b2ad62c67d7f2a860661deca82e203596ae8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:09 +0000
Subject: [PATCH 27/51] fix: attribute a foul to the side that committed it in
 KI2 records

---
 cshogi/KI2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cshogi/KI2.py b/cshogi/KI2.py
index 232f40d..901ad2e 100644
--- a/cshogi/KI2.py
+++ b/cshogi/KI2.py
@@ -604,6 +604,6 @@ class Exporter:
         elif reason == '%SENNICHITE':
             self.kifu.write('まで{}手で千日手\n'.format(self.board.move_number - 1))
         elif reason == '%+ILLEGAL_ACTION' or reason == '%-ILLEGAL_ACTION':
-            self.kifu.write('まで{}手で{}の反則勝ち\n'.format(self.board.move_number - 1, '先手' if self.board.turn == cshogi.WHITE else '後手'))
+            self.kifu.write('まで{}手で{}の反則勝ち\n'.format(self.board.move_number - 1, '先手' if reason == '%-ILLEGAL_ACTION' else '後手'))
         elif reason == '%ILLEGAL_MOVE':
-            self.kifu.write('まで{}手で{}の反則負け\n'.format(self.move_number - 1, '先手' if self.board.turn == cshogi.WHITE else '後手'))
+            self.kifu.write('まで{}手で{}の反則負け\n'.format(self.board.move_number - 1, '先手' if self.board.turn == cshogi.BLACK else '後手'))
-- 
2.43.0


From 5f7f0aba3b5a14c04f65aad3578bc4cefe5b8890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:09 +0000
Subject: [PATCH 28/51] fix: write a promoted knight as +N in PGN

---
 cshogi/PGN.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cshogi/PGN.py b/cshogi/PGN.py
index a967e24..4fd3310 100644
--- a/cshogi/PGN.py
+++ b/cshogi/PGN.py
@@ -21,7 +21,7 @@ PGN_HAND_PIECES = [
 PGN_PIECE_TYPES = [
     None,
     'P', 'L', 'N', 'S', 'B', 'R', 'G', 'K',
-    '+P', '+L', '+K', '+S', '+B', '+R',
+    '+P', '+L', '+N', '+S', '+B', '+R',
 ]
 
 def move_to_san(move):
-- 
2.43.0


From 8e168384cde9ad161dff04ed3ed018d256e04241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:09 +0000
Subject: [PATCH 29/51] fix: keep PGN movetext lines within 80 characters

---
 cshogi/PGN.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cshogi/PGN.py b/cshogi/PGN.py
index 4fd3310..234cb76 100644
--- a/cshogi/PGN.py
+++ b/cshogi/PGN.py
@@ -101,7 +101,7 @@ class Exporter:
             part += move_to_san(moves[i])
             if i + 1 == len(moves):
                 part += ' ' + self.result_str
-            if len(line) + len(part) <= 80:
+            if len(line) + (1 if line else 0) + len(part) <= 80:
                 if line != '':
                     line += ' '
                 line += part
-- 
2.43.0


From fef02294f616c836dd61f885dd72f04c0d000fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:14 +0000
Subject: [PATCH 30/51] fix: resolve a KI2 side mark when another piece on that
 side is told apart by its motion

---
 cshogi/KI2.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/cshogi/KI2.py b/cshogi/KI2.py
index 901ad2e..8b29028 100644
--- a/cshogi/KI2.py
+++ b/cshogi/KI2.py
@@ -66,19 +66,28 @@ class Parser:
         return result
 
     @staticmethod
-    def parse_move_str(line: str, board: Board):
-        """Parses a string of moves and applies them to a given board.
+    def normalize(line: str) -> str:
+        """Normalizes king/promoted kanji.
 
         :param line: String containing the moves in Japanese Shogi notation.
-        :param board: Board object to apply the moves to.
-        :return: A list of moves parsed from the line.
+        :return: The string with one kanji per piece.
         """
-        # Normalize king/promoted kanji
         line = line.replace('王', '玉')
         line = line.replace('竜', '龍')
         line = line.replace('成銀', '全')
         line = line.replace('成桂', '圭')
         line = line.replace('成香', '杏')
+        return line
+
+    @staticmethod
+    def parse_move_str(line: str, board: Board):
+        """Parses a string of moves and applies them to a given board.
+
+        :param line: String containing the moves in Japanese Shogi notation.
+        :param board: Board object to apply the moves to.
+        :return: A list of moves parsed from the line.
+        """
+        line = Parser.normalize(line)
 
         moves = []
         pos = 0
@@ -149,6 +158,9 @@ class Parser:
 
                 if len(candidates) > 1:
                     candidates = [move for move in candidates if not move_is_drop(move)]
+                if len(candidates) > 1:
+                    # 動作で区別される駒がある場合
+                    candidates = [move for move in candidates if Parser.MOVE_RE.match(Parser.normalize(move_to_ki2(move, board))).group(6, 7) == m.group(6, 7)]
                     assert len(candidates) == 1
                 move = candidates[0]
                 moves.append(move)
-- 
2.43.0


From 763afce1f97933aa4703d2cbcf03648ade7c554d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:49 +0000
Subject: [PATCH 31/51] fix: keep the piece name of a recapture in board
 diagrams

---
 cshogi/KIF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cshogi/KIF.py b/cshogi/KIF.py
index cbe2606..153f725 100755
--- a/cshogi/KIF.py
+++ b/cshogi/KIF.py
@@ -389,7 +389,7 @@ def move_to_bod(move: int, board: Board) -> str:
     move_str = cshogi.KI2.move_to_ki2(move, board)
     if move_str[1] == '同':
         to_sq = cshogi.move_to(move)
-        return move_str[0] + KIFU_TO_SQUARE_NAMES[to_sq] + '同' + move_str[3:]
+        return move_str[0] + KIFU_TO_SQUARE_NAMES[to_sq] + '同' + move_str[2:].lstrip('　')
     else:
         return move_str
 
-- 
2.43.0


From ac7f28b88496cda1efcca3f2271d7eb1f016e86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:06 +0000
Subject: [PATCH 32/51] fix: read more than two KI2 moves from one line

---
 cshogi/KI2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cshogi/KI2.py b/cshogi/KI2.py
index 8b29028..8da11f0 100644
--- a/cshogi/KI2.py
+++ b/cshogi/KI2.py
@@ -166,7 +166,7 @@ class Parser:
                 moves.append(move)
                 if board.is_legal(move):
                     board.push(move)
-                pos = m.end()
+                pos += m.end()
             else:
                 break
         return moves
-- 
2.43.0


From f7676f009856f66f29e0737a67bccb42ebf7c38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:57 +0000
Subject: [PATCH 33/51] fix: notice that a USI engine has exited instead of
 reading for ever

---
 cshogi/usi/Engine.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cshogi/usi/Engine.py b/cshogi/usi/Engine.py
index f810001..f5df8e7 100644
--- a/cshogi/usi/Engine.py
+++ b/cshogi/usi/Engine.py
@@ -214,7 +214,7 @@ class Engine:
         while True:
             self.proc.stdout.flush()
             line = self.proc.stdout.readline()
-            if line == '':
+            if line == b'':
                 raise EOFError()
             line = line.strip()
             if line[:7] == b'id name':
@@ -241,7 +241,7 @@ class Engine:
         while True:
             self.proc.stdout.flush()
             line = self.proc.stdout.readline()
-            if line == '':
+            if line == b'':
                 raise EOFError()
             line = line.strip().decode(locale.getpreferredencoding())
             if listener:
@@ -280,7 +280,7 @@ class Engine:
         while True:
             self.proc.stdout.flush()
             line = self.proc.stdout.readline()
-            if line == '':
+            if line == b'':
                 raise EOFError()
             line = line.strip().decode('shift-jis')
             if listener:
@@ -354,7 +354,7 @@ class Engine:
         while True:
             self.proc.stdout.flush()
             line = self.proc.stdout.readline()
-            if line == '':
+            if line == b'':
                 raise EOFError()
             line = line.strip().decode(locale.getpreferredencoding())
             if listener:
@@ -386,7 +386,7 @@ class Engine:
         while True:
             self.proc.stdout.flush()
             line = self.proc.stdout.readline()
-            if line == '':
+            if line == b'':
                 raise EOFError()
             line = line.strip().decode(locale.getpreferredencoding())
             if listener:
-- 
2.43.0


From bbf55307970b8432c51cab8a4fbd335cd932e192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:57 +0000
Subject: [PATCH 34/51] fix: start a USI engine given by a relative path

---
 cshogi/usi/Engine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cshogi/usi/Engine.py b/cshogi/usi/Engine.py
index f5df8e7..7a7a992 100644
--- a/cshogi/usi/Engine.py
+++ b/cshogi/usi/Engine.py
@@ -203,7 +203,8 @@ class Engine:
         """
         if self.debug: listener = print
         cwd = os.path.dirname(self.cmd)
-        self.proc = subprocess.Popen([self.cmd], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd if cwd != '' else None)
+        exe = os.path.abspath(self.cmd) if cwd != '' else self.cmd
+        self.proc = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd if cwd != '' else None)
 
         cmd = 'usi'
         if listener:
-- 
2.43.0


From f967dd7b7a62c922def5508c65088d817f72b1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:57 +0000
Subject: [PATCH 35/51] fix: keep non-numeric values, bounds and bare pv lines
 of USI info

---
 cshogi/usi/Engine.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cshogi/usi/Engine.py b/cshogi/usi/Engine.py
index 7a7a992..99c54da 100644
--- a/cshogi/usi/Engine.py
+++ b/cshogi/usi/Engine.py
@@ -32,7 +32,7 @@ class InfoListener:
 
     @staticmethod
     def _split_info(m: re.Match) -> Dict:
-        items = m[1].strip().split(' ')
+        items = m[1].split()
         info_dict = {}
         while items:
             name = items.pop(0)
@@ -46,10 +46,15 @@ class InfoListener:
                 name = items.pop(0)
                 info_dict['score'] = name
 
+            elif name in ('lowerbound', 'upperbound'):
+                info_dict[name] = True
+                continue
+
+            value = items.pop(0)
             try:
-                info_dict[name] = int(items.pop(0))
+                info_dict[name] = int(value)
             except ValueError:
-                info_dict[name] = items.pop(0)
+                info_dict[name] = value
 
         info_dict['pv'] = (m[2] + m[3]).split(' ')
         return info_dict
-- 
2.43.0


From 03824848d0d0e426b7127a071e3738d76444d11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:57 +0000
Subject: [PATCH 36/51] fix: score of a mate against without a distance

---
 cshogi/usi/Engine.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cshogi/usi/Engine.py b/cshogi/usi/Engine.py
index 99c54da..f95a0dd 100644
--- a/cshogi/usi/Engine.py
+++ b/cshogi/usi/Engine.py
@@ -122,10 +122,12 @@ class InfoListener:
                 mate = info['mate']
             else:
                 return None
-            if mate == '+' or mate > 0:
+            if mate == '+':
                 return self.__mate_score
             elif mate == '-' or mate <= 0:
                 return -self.__mate_score
+            else:
+                return self.__mate_score
                 
     @property
     def pv(self) -> List[str]:
-- 
2.43.0


From 468e37185f3420a02c6ae6ff8c9021e63ad902b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:55 +0000
Subject: [PATCH 37/51] fix: write a valid CSA ending for a lost perpetual
 check in matches

---
 cshogi/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cshogi/cli.py b/cshogi/cli.py
index f12c66b..ed99dac 100644
--- a/cshogi/cli.py
+++ b/cshogi/cli.py
@@ -445,7 +445,7 @@ def main(engine1: str, engine2: str, options1: Dict = {}, options2: Dict = {}, n
         elif is_repetition_lose:
             win = opponent(board.turn)
             print('まで{}手で{}の反則負け'.format(board.move_number - 1, '先手' if win == WHITE else '後手'))
-            csa_endgame = 'ILLEGAL_MOVE'
+            csa_endgame = '%ILLEGAL_MOVE'
         elif is_timeup:
             win = opponent(board.turn)
             print('まで{}手で{}の切れ負け'.format(board.move_number - 1, '先手' if win == WHITE else '後手'))
-- 
2.43.0


From 12649f6a34dd06616a771009e2208a323780c2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:55 +0000
Subject: [PATCH 38/51] fix: count the initial position for fourfold repetition
 in matches

---
 cshogi/cli.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cshogi/cli.py b/cshogi/cli.py
index ed99dac..32a8055 100644
--- a/cshogi/cli.py
+++ b/cshogi/cli.py
@@ -235,6 +235,7 @@ def main(engine1: str, engine2: str, options1: Dict = {}, options2: Dict = {}, n
         moves = []
         usi_moves = []
         repetition_hash = defaultdict(int)
+        repetition_hash[board.zobrist_hash()] += 1
         if csa:
             engine_names = [engine.name for engine in engines_order]
             if not multi_csa:
-- 
2.43.0


From ff46769d3e0b4f29d31ced474f859d28b9763c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:55 +0000
Subject: [PATCH 39/51] fix: check the move that ends a match game by mate_win
 and keep it in the record

---
 cshogi/cli.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/cshogi/cli.py b/cshogi/cli.py
index 32a8055..8543680 100644
--- a/cshogi/cli.py
+++ b/cshogi/cli.py
@@ -351,16 +351,6 @@ def main(engine1: str, engine2: str, options1: Dict = {}, options2: Dict = {}, n
                     is_game_over = True
                     break
 
-            # 詰みを見つけたら終了
-            if mate_win:
-                if score is not None and score == 100000:
-                    move = board.move_from_usi(bestmove)
-                    if csa:
-                        csa_exporter.move(move, time=int(elapsed_time), comment=usi_info_to_csa_comment(board, listener.info))
-                    board.push(move)
-                    is_game_over = True
-                    break
-
             if bestmove == 'resign':
                 # 投了
                 is_game_over = True
@@ -378,6 +368,10 @@ def main(engine1: str, engine2: str, options1: Dict = {}, options2: Dict = {}, n
                     board.push(move)
                     moves.append(move)
                     usi_moves.append(bestmove)
+                    # 詰みを見つけたら終了
+                    if mate_win and score == 100000:
+                        is_game_over = True
+                        break
                     key = board.zobrist_hash()
                     repetition_hash[key] += 1
                     # 千日手
-- 
2.43.0


From d646ac1d76b34fd2b19c3addc3c7b57fa2c7e6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:55 +0000
Subject: [PATCH 40/51] fix: allow the byoyomi after the main time in matches

---
 cshogi/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cshogi/cli.py b/cshogi/cli.py
index 8543680..67c387e 100644
--- a/cshogi/cli.py
+++ b/cshogi/cli.py
@@ -329,8 +329,8 @@ def main(engine1: str, engine2: str, options1: Dict = {}, options2: Dict = {}, n
                 remain_time[board.turn] -= math.ceil(elapsed_time * 1000)
 
                 if remain_time[board.turn] < 0:
-                    # 1秒未満は切れ負けにしない
-                    if remain_time[board.turn] > -1000:
+                    # 持ち時間を使い切った後は秒読み、1秒未満は切れ負けにしない
+                    if remain_time[board.turn] > -1000 - (byoyomi or 0):
                         remain_time[board.turn] = 0
                     else:
                         # 時間切れ負け
-- 
2.43.0


From 3b75e5102e5101069a0f9a8afc14536014f5afa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:31 +0000
Subject: [PATCH 41/51] fix: take score and comment of a match move from its
 own search when pondering

---
 cshogi/cli.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cshogi/cli.py b/cshogi/cli.py
index 67c387e..0627e57 100644
--- a/cshogi/cli.py
+++ b/cshogi/cli.py
@@ -159,7 +159,8 @@ def main(engine1: str, engine2: str, options1: Dict = {}, options2: Dict = {}, n
             def __call__(self, line):
                 self.info = self.bestmove
                 self.bestmove = line
-        listener1 = listener2 = Listener()
+        listener1 = Listener()
+        listener2 = Listener()
 
     # CSA
     if csa and multi_csa:
@@ -323,6 +324,9 @@ def main(engine1: str, engine2: str, options1: Dict = {}, options2: Dict = {}, n
 
                 elapsed_time = perf_counter() - start_time
 
+            info = listener.info
+            score = usi_info_to_score(info)
+
             if remain_time[board.turn] is not None:
                 if inc_time[board.turn] is not None:
                     remain_time[board.turn] += inc_time[board.turn]
@@ -343,7 +347,6 @@ def main(engine1: str, engine2: str, options1: Dict = {}, options2: Dict = {}, n
                 engine.position(usi_moves + [bestmove, pondermove], listener=listener)
                 feature = executor.submit(engine.go, ponder=True, byoyomi=byoyomi, btime=remain_time[BLACK], wtime=remain_time[WHITE], binc=binc, winc=winc, listener=listener)
 
-            score = usi_info_to_score(listener.info)
             # 投了閾値
             if resign is not None:
                 if score is not None and score <= -resign:
@@ -364,7 +367,7 @@ def main(engine1: str, engine2: str, options1: Dict = {}, options2: Dict = {}, n
                 move = board.move_from_usi(bestmove)
                 if board.is_legal(move):
                     if csa:
-                        csa_exporter.move(move, time=int(elapsed_time), comment=usi_info_to_csa_comment(board, listener.info))
+                        csa_exporter.move(move, time=int(elapsed_time), comment=usi_info_to_csa_comment(board, info))
                     board.push(move)
                     moves.append(move)
                     usi_moves.append(bestmove)
-- 
2.43.0


From e67aee472b500763dff1f85dfdea3860373ac7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:31 +0000
Subject: [PATCH 42/51] fix: send go ponder before the match goes on

---
 cshogi/cli.py        | 3 ++-
 cshogi/usi/Engine.py | 6 ++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/cshogi/cli.py b/cshogi/cli.py
index 0627e57..8172caf 100644
--- a/cshogi/cli.py
+++ b/cshogi/cli.py
@@ -345,7 +345,8 @@ def main(engine1: str, engine2: str, options1: Dict = {}, options2: Dict = {}, n
             # ponder
             if ponder and pondermove:
                 engine.position(usi_moves + [bestmove, pondermove], listener=listener)
-                feature = executor.submit(engine.go, ponder=True, byoyomi=byoyomi, btime=remain_time[BLACK], wtime=remain_time[WHITE], binc=binc, winc=winc, listener=listener)
+                engine._send_go(ponder=True, byoyomi=byoyomi, btime=remain_time[BLACK], wtime=remain_time[WHITE], binc=binc, winc=winc, listener=listener)
+                feature = executor.submit(engine._wait_bestmove, listener=listener)
 
             # 投了閾値
             if resign is not None:
diff --git a/cshogi/usi/Engine.py b/cshogi/usi/Engine.py
index f95a0dd..d1b6f3e 100644
--- a/cshogi/usi/Engine.py
+++ b/cshogi/usi/Engine.py
@@ -337,6 +337,10 @@ class Engine:
         :param listener: Optional callback to handle engine responses.
         :return: The best move found and optional ponder move.
         """
+        self._send_go(ponder=ponder, btime=btime, wtime=wtime, byoyomi=byoyomi, binc=binc, winc=winc, nodes=nodes, listener=listener)
+        return self._wait_bestmove(listener=listener)
+
+    def _send_go(self, ponder: bool = False, btime: Optional[int] = None, wtime: Optional[int] = None, byoyomi: Optional[int] = None, binc: Optional[int] = None, winc: Optional[int] = None, nodes: Optional[int] = None, listener: Optional[Callable] = None):
         if self.debug: listener = print
         cmd = 'go'
         if ponder:
@@ -359,6 +363,8 @@ class Engine:
         self.proc.stdin.write(cmd.encode('ascii') + b'\n')
         self.proc.stdin.flush()
 
+    def _wait_bestmove(self, listener: Optional[Callable] = None) -> Tuple[str, Optional[str]]:
+        if self.debug: listener = print
         while True:
             self.proc.stdout.flush()
             line = self.proc.stdout.readline()
-- 
2.43.0


From eb29c06e0ebf93bfa73aafc85d40df4c2c137e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:31 +0000
Subject: [PATCH 43/51] fix: stop pondering when a match game is over

---
 cshogi/cli.py | 50 +++++++++++++++++++++++++-------------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/cshogi/cli.py b/cshogi/cli.py
index 8172caf..e2284c5 100644
--- a/cshogi/cli.py
+++ b/cshogi/cli.py
@@ -277,9 +277,7 @@ def main(engine1: str, engine2: str, options1: Dict = {}, options2: Dict = {}, n
         inc_time = (binc, winc)
         bestmove = None
         pondermove = None
-        pre_pondermove = None
-        feature = None
-        pre_feature = None
+        pondering = [None, None]
         while not is_game_over:
             engine_index = (board.move_number - 1) % 2
             engine = engines_order[engine_index]
@@ -293,25 +291,21 @@ def main(engine1: str, engine2: str, options1: Dict = {}, options2: Dict = {}, n
 
             # ponder
             ponderhit = False
-            if ponder:
-                if pre_pondermove:
-                    if bestmove == pre_pondermove:
-                        ponderhit = True
-                        pre_pondermove = pondermove
+            if pondering[engine_index]:
+                pre_pondermove, pre_feature = pondering[engine_index]
+                pondering[engine_index] = None
+                if bestmove == pre_pondermove:
+                    ponderhit = True
 
-                        start_time = perf_counter()
+                    start_time = perf_counter()
 
-                        engine.ponderhit(listener=listener)
-                        bestmove, pondermove = pre_feature.result()
-    
-                        elapsed_time = perf_counter() - start_time
-                    else:
-                        pre_pondermove = pondermove
-                        engine.stop(listener=listener)
-                        pre_feature.result()
+                    engine.ponderhit(listener=listener)
+                    bestmove, pondermove = pre_feature.result()
+
+                    elapsed_time = perf_counter() - start_time
                 else:
-                    pre_pondermove = pondermove
-                pre_feature = feature
+                    engine.stop(listener=listener)
+                    pre_feature.result()
 
             if not ponderhit:
                 # position
@@ -342,12 +336,6 @@ def main(engine1: str, engine2: str, options1: Dict = {}, options2: Dict = {}, n
                         is_game_over = True
                         break
 
-            # ponder
-            if ponder and pondermove:
-                engine.position(usi_moves + [bestmove, pondermove], listener=listener)
-                engine._send_go(ponder=True, byoyomi=byoyomi, btime=remain_time[BLACK], wtime=remain_time[WHITE], binc=binc, winc=winc, listener=listener)
-                feature = executor.submit(engine._wait_bestmove, listener=listener)
-
             # 投了閾値
             if resign is not None:
                 if score is not None and score <= -resign:
@@ -411,6 +399,18 @@ def main(engine1: str, engine2: str, options1: Dict = {}, options2: Dict = {}, n
                 is_game_over = True
                 break
 
+            # ponder
+            if ponder and pondermove:
+                engine.position(usi_moves + [pondermove], listener=listener)
+                engine._send_go(ponder=True, byoyomi=byoyomi, btime=remain_time[BLACK], wtime=remain_time[WHITE], binc=binc, winc=winc, listener=listener)
+                pondering[engine_index] = (pondermove, executor.submit(engine._wait_bestmove, listener=listener))
+
+        # 先読み停止
+        for engine, listener, search in zip(engines_order, listeners_order, pondering):
+            if search:
+                engine.stop(listener=listener)
+                search[1].result()
+
         # ゲーム終了
         for engine, listener in zip(engines_order, listeners_order):
             engine.gameover(listener=listener)
-- 
2.43.0


From 672477eb91a3e4c055ad93d66c668898d79d826c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:27 +0000
Subject: [PATCH 44/51] fix: write a valid CSA ending for a lost perpetual
 check in web matches

---
 cshogi/web/app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cshogi/web/app.py b/cshogi/web/app.py
index 8dd8c7b..4866778 100644
--- a/cshogi/web/app.py
+++ b/cshogi/web/app.py
@@ -218,7 +218,7 @@ def match(moves, engine1=None, engine2=None, options1={}, options2={}, names=Non
     elif is_repetition_lose:
         win = opponent(board.turn)
         result = '{}の反則負け'.format('先手' if win == WHITE else '後手')
-        csa_endgame = 'ILLEGAL_MOVE'
+        csa_endgame = '%ILLEGAL_MOVE'
     elif is_timeup:
         win = opponent(board.turn)
         result = '{}の切れ負け'.format('先手' if win == WHITE else '後手')
-- 
2.43.0


From 4e6c3cd4eb5d476d5eb831c5f772de2c1282fe3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:27 +0000
Subject: [PATCH 45/51] fix: count the initial position for fourfold repetition
 in web matches

---
 cshogi/web/app.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cshogi/web/app.py b/cshogi/web/app.py
index 4866778..9b36861 100644
--- a/cshogi/web/app.py
+++ b/cshogi/web/app.py
@@ -97,6 +97,7 @@ def match(moves, engine1=None, engine2=None, options1={}, options2={}, names=Non
     board = Board()
     usi_moves = []
     repetition_hash = defaultdict(int)
+    repetition_hash[board.zobrist_hash()] += 1
 
     # 新規ゲーム
     for engine in engines:
-- 
2.43.0


From 6b46f1b3954da81f923d55a248176bca32230d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:27 +0000
Subject: [PATCH 46/51] fix: keep the clocks of web matches

---
 cshogi/web/app.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/cshogi/web/app.py b/cshogi/web/app.py
index 9b36861..67b42bf 100644
--- a/cshogi/web/app.py
+++ b/cshogi/web/app.py
@@ -137,10 +137,20 @@ def match(moves, engine1=None, engine2=None, options1={}, options2={}, names=Non
         elapsed_time = perf_counter() - start_time
 
         if remain_time[board.turn] is not None:
-            if inc_time[board.turn] is not None:
-                remain_time[board.turn] += inc_time[board.turn]
+            if inc is not None:
+                remain_time[board.turn] += inc
             remain_time[board.turn] -= math.ceil(elapsed_time * 1000)
 
+            if remain_time[board.turn] < 0:
+                # 持ち時間を使い切った後は秒読み、1秒未満は切れ負けにしない
+                if remain_time[board.turn] > -1000 - (byoyomi or 0):
+                    remain_time[board.turn] = 0
+                else:
+                    # 時間切れ負け
+                    is_timeup = True
+                    is_game_over = True
+                    break
+
         if bestmove == 'resign':
             # 投了
             is_game_over = True
-- 
2.43.0


From cdf45e8630368d53396a16b015dfbc569f2d7c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:27 +0000
Subject: [PATCH 47/51] fix: show CSA records with any ending, or without moves

---
 cshogi/CSA.py     | 4 +++-
 cshogi/web/app.py | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/cshogi/CSA.py b/cshogi/CSA.py
index 28b5ef9..4743a68 100644
--- a/cshogi/CSA.py
+++ b/cshogi/CSA.py
@@ -10,7 +10,9 @@ JAPANESE_END_GAMES = {
     '%TIME_UP': '切れ負け',
     '%ILLEGAL_MOVE': '反則負け',
     '%JISHOGI': '持将棋',
-    '%KACHI': '入力宣言',
+    '%KACHI': '入玉宣言',
+    '%+ILLEGAL_ACTION': '先手の反則行為',
+    '%-ILLEGAL_ACTION': '後手の反則行為',
 }
 
 class Exporter:
diff --git a/cshogi/web/app.py b/cshogi/web/app.py
index 67b42bf..bd59614 100644
--- a/cshogi/web/app.py
+++ b/cshogi/web/app.py
@@ -288,6 +288,7 @@ def run(engine1: Optional[str] = None, engine2: Optional[str] = None, options1:
         kif = CSA.Parser.parse_file(csa)[0]
         names = kif.names
         board = Board(sfen=kif.sfen)
+        i = -1
         for i, (move, prev_move, time, comment) in enumerate(zip(kif.moves, [None] + kif.moves[:-1], kif.times, kif.comments)):
             comment_items = comment.split(' ')
             eval = 'null'
@@ -316,7 +317,7 @@ def run(engine1: Optional[str] = None, engine2: Optional[str] = None, options1:
                 })
         moves.append({
             'number': i + 2,
-            'kif_move': TURN_SYMBOLS[(i + 1) % 2] + CSA.JAPANESE_END_GAMES[kif.endgame],
+            'kif_move': TURN_SYMBOLS[(i + 1) % 2] + CSA.JAPANESE_END_GAMES.get(kif.endgame, ''),
             'time': 0,
             'move': 0,
             'eval': 'null',
-- 
2.43.0


From 58a99482e6068eb3a39587a32827987b3c1003d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:00 +0000
Subject: [PATCH 48/51] fix: name the piece that moves in mates in one by
 discovered and double check

---
 src/position.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/position.cpp b/src/position.cpp
index 1a80a7e..53f9755 100644
--- a/src/position.cpp
+++ b/src/position.cpp
@@ -2548,7 +2548,7 @@ silver_drop_end:
                     if (!can_king_escape_cangoto(*this, Them, from, to, bb_attacks, slide)) {
                         if (promo && !(pt & PTPromote) && pt != Gold)
                             return makePromoteMove<Capture>(pt, from, to, *this);
-                        return makeCaptureMove(pt, from, to, *this);
+                        return makeCaptureMove(pieceToPieceType(piece(from)), from, to, *this);
                     }
 
                 DC_Silver_NO_PRO:
@@ -2797,7 +2797,7 @@ silver_drop_end:
                         if (canPromote(US, from, to) && !(piece(from) & PTPromote) && pt != Gold)
                             return makePromoteMove<Capture>(pt, from, to, *this);
                         else
-                            return makeCaptureMove(pt, from, to, *this);
+                            return makeCaptureMove(pieceToPieceType(piece(from)), from, to, *this);
                     }
 
                 DISCOVER_ATTACK_CONTINUE_Silver:
-- 
2.43.0


From 10504041d2740f5eb4ab49927b20596109039904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:06 +0000
Subject: [PATCH 49/51] fix: restore the continuous check counts when a pass is
 taken back

---
 src/position.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/position.cpp b/src/position.cpp
index 53f9755..a092953 100644
--- a/src/position.cpp
+++ b/src/position.cpp
@@ -703,6 +703,8 @@ template <bool DO> void Position::doNullMove(StateInfo& backUpSt) {
     dst->boardKey = src->boardKey;
     dst->handKey = src->handKey;
     dst->pliesFromNull = src->pliesFromNull;
+    dst->continuousCheck[Black] = src->continuousCheck[Black];
+    dst->continuousCheck[White] = src->continuousCheck[White];
     dst->hand = hand(turn());
     turn_ = oppositeColor(turn());
 
-- 
2.43.0


From 364f404ea220620f63815bf6c592cc4e31b3c216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:56 +0000
Subject: [PATCH 50/51] fix: print the draw ratio of a match in percent

---
 cshogi/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cshogi/cli.py b/cshogi/cli.py
index e2284c5..88243d2 100644
--- a/cshogi/cli.py
+++ b/cshogi/cli.py
@@ -510,7 +510,7 @@ def main(engine1: str, engine2: str, options1: Dict = {}, options2: Dict = {}, n
                 except ValueError:
                     error_margin = math.nan
                 print('Elo difference: {:.1f} +/- {:.1f}, LOS: {:.1f} %, DrawRatio: {:.1f} %'.format(
-                    elo.diff(), error_margin, elo.los(), elo.draw_ratio()))
+                    elo.diff(), error_margin, elo.los(), elo.draw_ratio() * 100))
 
         # CSA
         if csa:
-- 
2.43.0


From 564f11a463bdc8ba1e0d0fa5d90b8a45804a5728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:57 +0000
Subject: [PATCH 51/51] fix: tell a human with a name that it is his turn after
 a move on the web page

---
 cshogi/web/app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cshogi/web/app.py b/cshogi/web/app.py
index bd59614..b533226 100644
--- a/cshogi/web/app.py
+++ b/cshogi/web/app.py
@@ -351,7 +351,7 @@ def run(engine1: Optional[str] = None, engine2: Optional[str] = None, options1:
         human_input['number'] = int(request.args.get('number', default=0))
         time.sleep(0.2)
         human = ''
-        if names[len(moves) % 2] == 'Human':
+        if humans[len(moves) % 2]:
             human = 'black' if len(moves) % 2 == 0 else 'white'
         return { 'names': list(names), 'moves': list(moves), 'human':human }
 
-- 
2.43.0

