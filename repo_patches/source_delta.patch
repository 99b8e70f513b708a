From 81d82371750474d5c0997ff3c74da296ac3eec9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:11 +0000
Subject: [PATCH] fix: include the side to move in the key of a freshly set-up
 position

Position::new never mixed Key::COLOR in, so a position set up with White to
move had a different key from the same position reached by do_move.
---
 src/position.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/position.rs b/src/position.rs
index be77b16..73e8460 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -15,6 +15,9 @@ impl Position {
     pub fn new(partial: shogi_core::PartialPosition) -> Position {
         let inner = PartialPosition::from(partial);
         let mut keys = (Key::ZERO, Key::ZERO);
+        if inner.side == Color::White {
+            keys.0 ^= Key::COLOR;
+        }
         for sq in Square::all() {
             if let Some(p) = inner.board[sq.array_index()] {
                 keys.0 ^= ZOBRIST_TABLE.board(sq, p);
-- 
2.43.0

