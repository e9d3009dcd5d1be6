From 5e9e0273a0a608fe3597ee9a820c7860c733fa09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:09 +0000
Subject: [PATCH 01/55] fix: read block positions from the rope while it is
 authoritative

The stored document_position of a block went stale as soon as an earlier
block changed length, so commands that looked blocks up by position
(set_char_format, merge_char_format, set_block_format, create_list,
insert_list, replace_text) acted on the wrong characters or blocks.
---
 crates/common/src/database/rope_helpers.rs    | 19 ++++++
 .../src/direct_access/block/block_table.rs    | 62 ++++++++++++-------
 .../src/use_cases/insert_fragment_uc.rs       |  8 ++-
 .../src/use_cases/insert_frame_uc.rs          |  5 +-
 .../src/use_cases/insert_table_uc.rs          | 42 +------------
 5 files changed, 73 insertions(+), 63 deletions(-)

diff --git a/crates/common/src/database/rope_helpers.rs b/crates/common/src/database/rope_helpers.rs
index 7f715c4..94b86d8 100644
--- a/crates/common/src/database/rope_helpers.rs
+++ b/crates/common/src/database/rope_helpers.rs
@@ -105,6 +105,25 @@ pub fn rope_positions_match_flow(store: &Store) -> bool {
     indexed_block_count == total_block_count
 }
 
+/// Write the rope-derived `document_position` of every block back to the
+/// store, if the rope is still authoritative.
+///
+/// Must run before a table or sub-frame is added: from then on the stored
+/// field is what readers get, and it may be stale.
+pub fn store_rope_positions(store: &Store) {
+    if !rope_positions_match_flow(store) {
+        return;
+    }
+    let offsets = store.block_offsets.read().unwrap();
+    let rope = store.rope.read().unwrap();
+    let mut blocks = store.blocks.write().unwrap();
+    for (marker, byte_start) in offsets.entries.iter() {
+        if let Some(block) = marker.as_block().and_then(|id| blocks.get_mut(&id)) {
+            block.document_position = rope.byte_to_char(*byte_start as usize) as i64;
+        }
+    }
+}
+
 /// Locate which block contains a given absolute char position in the
 /// document, returning `(block_id, char_offset_in_block, block_char_start)`
 /// in O(log n) using the rope + `BlockOffsetIndex` instead of an O(N)
diff --git a/crates/common/src/direct_access/block/block_table.rs b/crates/common/src/direct_access/block/block_table.rs
index 9c0233b..b053d2d 100644
--- a/crates/common/src/direct_access/block/block_table.rs
+++ b/crates/common/src/direct_access/block/block_table.rs
@@ -4,6 +4,7 @@
 // step are gone.
 
 use crate::database::Store;
+use crate::database::rope_helpers::{block_document_position, rope_positions_match_flow};
 use crate::entities::Block;
 use crate::error::RepositoryError;
 use crate::types::EntityId;
@@ -25,6 +26,39 @@ fn write_field(block: &mut Block, field: &BlockRelationshipField, ids: Vec<Entit
     }
 }
 
+/// The stored `document_position` is only maintained for documents with
+/// tables or sub-frames; in a flat document it goes stale as soon as an
+/// earlier block changes length, and the rope is authoritative. Every
+/// read therefore hands out the rope-derived position when it is valid.
+fn refresh_positions<'b>(store: &Store, blocks: impl Iterator<Item = &'b mut Block>) {
+    if rope_positions_match_flow(store) {
+        for block in blocks {
+            block.document_position = block_document_position(block, store);
+        }
+    }
+}
+
+fn read_block(store: &Store, id: &EntityId) -> Option<Block> {
+    let mut block = store.blocks.read().unwrap().get(id).cloned();
+    refresh_positions(store, block.iter_mut());
+    block
+}
+
+fn read_blocks(store: &Store, ids: &[EntityId]) -> Vec<Option<Block>> {
+    let mut blocks: Vec<Option<Block>> = {
+        let map = store.blocks.read().unwrap();
+        ids.iter().map(|id| map.get(id).cloned()).collect()
+    };
+    refresh_positions(store, blocks.iter_mut().flatten());
+    blocks
+}
+
+fn read_all_blocks(store: &Store) -> Vec<Block> {
+    let mut blocks: Vec<Block> = store.blocks.read().unwrap().values().cloned().collect();
+    refresh_positions(store, blocks.iter_mut());
+    blocks
+}
+
 pub struct BlockHashMapTable<'a> {
     store: &'a Store,
 }
@@ -69,23 +103,15 @@ impl<'a> BlockTable for BlockHashMapTable<'a> {
     }
 
     fn get(&self, id: &EntityId) -> Result<Option<Block>, RepositoryError> {
-        Ok(self.store.blocks.read().unwrap().get(id).cloned())
+        Ok(read_block(self.store, id))
     }
 
     fn get_multi(&self, ids: &[EntityId]) -> Result<Vec<Option<Block>>, RepositoryError> {
-        let map = self.store.blocks.read().unwrap();
-        Ok(ids.iter().map(|id| map.get(id).cloned()).collect())
+        Ok(read_blocks(self.store, ids))
     }
 
     fn get_all(&self) -> Result<Vec<Block>, RepositoryError> {
-        Ok(self
-            .store
-            .blocks
-            .read()
-            .unwrap()
-            .values()
-            .cloned()
-            .collect())
+        Ok(read_all_blocks(self.store))
     }
 
     fn update(&mut self, entity: &Block) -> Result<Block, RepositoryError> {
@@ -333,23 +359,15 @@ impl<'a> BlockHashMapTableRO<'a> {
 
 impl<'a> BlockTableRO for BlockHashMapTableRO<'a> {
     fn get(&self, id: &EntityId) -> Result<Option<Block>, RepositoryError> {
-        Ok(self.store.blocks.read().unwrap().get(id).cloned())
+        Ok(read_block(self.store, id))
     }
 
     fn get_multi(&self, ids: &[EntityId]) -> Result<Vec<Option<Block>>, RepositoryError> {
-        let map = self.store.blocks.read().unwrap();
-        Ok(ids.iter().map(|id| map.get(id).cloned()).collect())
+        Ok(read_blocks(self.store, ids))
     }
 
     fn get_all(&self) -> Result<Vec<Block>, RepositoryError> {
-        Ok(self
-            .store
-            .blocks
-            .read()
-            .unwrap()
-            .values()
-            .cloned()
-            .collect())
+        Ok(read_all_blocks(self.store))
     }
 
     fn get_relationship(
diff --git a/crates/document_editing/src/use_cases/insert_fragment_uc.rs b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
index c2d7ec0..08a5c85 100644
--- a/crates/document_editing/src/use_cases/insert_fragment_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
@@ -9,7 +9,7 @@ use common::database::CommandUnitOfWork;
 use common::database::rope_helpers::{
     block_char_length, rope_append_block, rope_delete_in_block, rope_insert_block_at,
     rope_insert_block_boundary, rope_insert_in_block, rope_insert_table_anchor, rope_split_block,
-    top_level_frame_end_byte,
+    store_rope_positions, top_level_frame_end_byte,
 };
 use common::direct_access::document::document_repository::DocumentRelationshipField;
 use common::direct_access::frame::frame_repository::FrameRelationshipField;
@@ -401,6 +401,9 @@ fn insert_table_fragment(
 
     let snapshot = uow.snapshot_document(&[doc_id])?;
 
+    // Tables in the fragment make the stored positions authoritative.
+    store_rope_positions(&uow.store());
+
     let frame_ids = uow.get_document_relationship(&doc_id, &DocumentRelationshipField::Frames)?;
     let frame_id = *frame_ids
         .first()
@@ -792,6 +795,9 @@ fn insert_mixed_fragment(
         .ok_or_else(|| anyhow!("Document not found"))?;
     let snapshot = uow.snapshot_document(&[doc_id])?;
 
+    // Tables in the fragment make the stored positions authoritative.
+    store_rope_positions(&uow.store());
+
     if dto.position != dto.anchor {
         return Err(anyhow!(
             "Selection replacement is not supported. Use delete_text first."
diff --git a/crates/document_editing/src/use_cases/insert_frame_uc.rs b/crates/document_editing/src/use_cases/insert_frame_uc.rs
index 26ef850..2998196 100644
--- a/crates/document_editing/src/use_cases/insert_frame_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_frame_uc.rs
@@ -3,7 +3,7 @@ use crate::InsertFrameResultDto;
 use anyhow::{Result, anyhow};
 use common::database::CommandUnitOfWork;
 use common::database::rope_helpers::block_char_length;
-use common::database::rope_helpers::rope_append_empty_block;
+use common::database::rope_helpers::{rope_append_empty_block, store_rope_positions};
 use common::direct_access::document::document_repository::DocumentRelationshipField;
 use common::direct_access::frame::frame_repository::FrameRelationshipField;
 use common::direct_access::root::root_repository::RootRelationshipField;
@@ -100,6 +100,9 @@ fn execute_insert_frame(
     // Snapshot for undo before mutation
     let snapshot = uow.snapshot_document(&[doc_id])?;
 
+    // The new sub-frame makes the stored positions authoritative.
+    store_rope_positions(&uow.store());
+
     let now = chrono::Utc::now();
 
     // Determine the parent frame from the position
diff --git a/crates/document_editing/src/use_cases/insert_table_uc.rs b/crates/document_editing/src/use_cases/insert_table_uc.rs
index 7c93ca3..ec8369c 100644
--- a/crates/document_editing/src/use_cases/insert_table_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_table_uc.rs
@@ -3,7 +3,8 @@ use crate::InsertTableResultDto;
 use anyhow::{Result, anyhow};
 use common::database::CommandUnitOfWork;
 use common::database::rope_helpers::{
-    block_char_length, rope_insert_block_at, rope_insert_table_anchor, top_level_frame_end_byte,
+    block_char_length, rope_insert_block_at, rope_insert_table_anchor, store_rope_positions,
+    top_level_frame_end_byte,
 };
 use common::direct_access::document::document_repository::DocumentRelationshipField;
 use common::direct_access::frame::frame_repository::FrameRelationshipField;
@@ -85,44 +86,7 @@ fn execute_insert_table(
     // so the rope can no longer derive flow positions and the stored
     // field becomes the authoritative source. Bring it up to date now
     // before any cell-position computations below use it.
-    {
-        let store = uow.store();
-        let catchup: Vec<(common::types::EntityId, i64)> =
-            if common::database::rope_helpers::rope_positions_match_flow(&store) {
-                let offsets = store.block_offsets.read().unwrap();
-                let rope = store.rope.read().unwrap();
-                offsets
-                    .entries
-                    .iter()
-                    .filter_map(|(marker, byte_start)| match marker {
-                        common::database::block_offset_index::OffsetMarker::Block(id) => {
-                            Some((*id, rope.byte_to_char(*byte_start as usize) as i64))
-                        }
-                        _ => None,
-                    })
-                    .collect()
-            } else {
-                Vec::new()
-            };
-        if !catchup.is_empty() {
-            let ids: Vec<common::types::EntityId> = catchup.iter().map(|(id, _)| *id).collect();
-            let blocks_opt = uow.get_block_multi(&ids)?;
-            let mut updates: Vec<Block> = Vec::new();
-            for ((_, fresh_pos), maybe_b) in catchup.into_iter().zip(blocks_opt) {
-                if let Some(b) = maybe_b
-                    && b.document_position != fresh_pos
-                {
-                    let mut ub = b;
-                    ub.document_position = fresh_pos;
-                    ub.updated_at = chrono::Utc::now();
-                    updates.push(ub);
-                }
-            }
-            if !updates.is_empty() {
-                uow.update_block_multi(&updates)?;
-            }
-        }
-    }
+    store_rope_positions(&uow.store());
 
     // Find the insertion position — determine the parent frame and where in child_order
     let frame_ids = uow.get_document_relationship(&doc_id, &DocumentRelationshipField::Frames)?;
-- 
2.43.0


From 008edb6c51c714315de4ecff509bce22e3d021e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:09 +0000
Subject: [PATCH 02/55] fix: mirror the block created by insert_list into the
 rope

Text typed into the new list item was lost and the item was missing from
to_plain_text().
---
 .../src/use_cases/insert_list_uc.rs             | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/crates/document_editing/src/use_cases/insert_list_uc.rs b/crates/document_editing/src/use_cases/insert_list_uc.rs
index 5a7d74d..48ebbd3 100644
--- a/crates/document_editing/src/use_cases/insert_list_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_list_uc.rs
@@ -3,7 +3,9 @@ use crate::InsertListDto;
 use crate::InsertListResultDto;
 use anyhow::{Result, anyhow};
 use common::database::CommandUnitOfWork;
-use common::database::rope_helpers::block_char_length;
+use common::database::rope_helpers::{
+    block_char_length, block_char_to_byte_in_block, rope_split_block,
+};
 use common::direct_access::document::document_repository::DocumentRelationshipField;
 use common::direct_access::frame::frame_repository::FrameRelationshipField;
 use common::direct_access::root::root_repository::RootRelationshipField;
@@ -97,7 +99,7 @@ fn execute_insert_list(
     blocks.sort_by_key(|b| b.document_position);
 
     // Find block at position to determine insert index
-    let (_current_block, block_idx, _offset) =
+    let (current_block, block_idx, _offset) =
         find_block_at_position(&blocks, position, &uow.store())?;
 
     let now = chrono::Utc::now();
@@ -146,6 +148,17 @@ fn execute_insert_list(
         uow.get_frame_relationship(&frame_id, &FrameRelationshipField::Blocks)?;
     uow.update_frame(&updated_frame)?;
 
+    // Mirror to the rope: the new empty block goes right after the current
+    // one. Without its offset-index entry, text typed into the list item
+    // would be dropped.
+    let (_, content_byte_len) = block_char_to_byte_in_block(&store, current_block.id, 0);
+    rope_split_block(
+        &store,
+        current_block.id,
+        content_byte_len as u32,
+        created_block.id,
+    );
+
     // Update subsequent blocks' document_position (those after the new block)
     let mut blocks_to_update: Vec<Block> = Vec::new();
     for b in &blocks[(block_idx + 1)..] {
-- 
2.43.0


From 30ea5decf7aa22caddcd5b2c204e810b7a5888d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:09 +0000
Subject: [PATCH 03/55] fix: report insert_list as an insertion, not as
 replacing the selection

It deletes nothing, but it announced the selected range as removed and
shifted the other cursors accordingly.
---
 crates/public_api/src/cursor.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index 8d7be8e..309a43c 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -1696,16 +1696,11 @@ impl TextCursor {
             };
             let result =
                 document_editing_commands::insert_list(&inner.ctx, Some(inner.stack_id), &dto)?;
-            let edit_pos = pos.min(anchor);
-            let removed = pos.max(anchor) - edit_pos;
-            self.finish_edit_ext(
-                &mut inner,
-                edit_pos,
-                removed,
-                to_usize(result.new_position),
-                1,
-                false,
-            )
+            // The new item starts after the current block: the only change is
+            // the separator inserted just before `new_position`. A selection
+            // is left alone.
+            let new_pos = to_usize(result.new_position);
+            self.finish_edit_ext(&mut inner, new_pos.saturating_sub(1), 0, new_pos, 1, false)
         };
         crate::inner::dispatch_queued_events(queued);
         Ok(())
-- 
2.43.0


From 7d7968c0ea21dd02179faa8fd0277f65d983f0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:06 +0000
Subject: [PATCH 04/55] fix: redo of entity-creating commands restores the
 original entity ids

Redo executed the command again and minted new list, table, cell and
block ids, so redoing a following command that refers to an id
(set_list_format, insert_table_row, remove_block_from_list, ...) failed
and left the rest of the history unreachable.
---
 crates/document_editing/src/use_cases/create_list_uc.rs  | 9 +++++++++
 crates/document_editing/src/use_cases/delete_text_uc.rs  | 9 +++++++++
 crates/document_editing/src/use_cases/insert_block_uc.rs | 9 +++++++++
 .../document_editing/src/use_cases/insert_fragment_uc.rs | 9 +++++++++
 crates/document_editing/src/use_cases/insert_frame_uc.rs | 9 +++++++++
 crates/document_editing/src/use_cases/insert_list_uc.rs  | 9 +++++++++
 .../src/use_cases/insert_table_column_uc.rs              | 9 +++++++++
 .../src/use_cases/insert_table_row_uc.rs                 | 9 +++++++++
 crates/document_editing/src/use_cases/insert_table_uc.rs | 9 +++++++++
 .../src/use_cases/split_table_cell_uc.rs                 | 9 +++++++++
 10 files changed, 90 insertions(+)

diff --git a/crates/document_editing/src/use_cases/create_list_uc.rs b/crates/document_editing/src/use_cases/create_list_uc.rs
index 53f7842..9870225 100644
--- a/crates/document_editing/src/use_cases/create_list_uc.rs
+++ b/crates/document_editing/src/use_cases/create_list_uc.rs
@@ -36,6 +36,9 @@ pub trait CreateListUnitOfWorkTrait: CommandUnitOfWork {}
 pub struct CreateListUseCase {
     uow_factory: Box<dyn CreateListUnitOfWorkFactoryTrait>,
     undo_snapshot: Option<EntityTreeSnapshot>,
+    /// State to go back to on redo. Executing again would mint new entity
+    /// ids, and later commands refer to the original ones.
+    redo_snapshot: Option<EntityTreeSnapshot>,
     last_dto: Option<CreateListDto>,
 }
 
@@ -132,6 +135,7 @@ impl CreateListUseCase {
         CreateListUseCase {
             uow_factory,
             undo_snapshot: None,
+            redo_snapshot: None,
             last_dto: None,
         }
     }
@@ -159,6 +163,7 @@ impl UndoRedoCommand for CreateListUseCase {
 
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
+        self.redo_snapshot = Some(uow.snapshot_document(&[])?);
         uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
@@ -173,6 +178,10 @@ impl UndoRedoCommand for CreateListUseCase {
 
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
+        if let Some(snapshot) = self.redo_snapshot.take() {
+            uow.restore_document(&snapshot)?;
+            return uow.commit();
+        }
         let (_, snapshot) = execute_create_list(&mut uow, &dto)?;
         self.undo_snapshot = Some(snapshot);
         uow.commit()?;
diff --git a/crates/document_editing/src/use_cases/delete_text_uc.rs b/crates/document_editing/src/use_cases/delete_text_uc.rs
index 57fa641..89e9ae0 100644
--- a/crates/document_editing/src/use_cases/delete_text_uc.rs
+++ b/crates/document_editing/src/use_cases/delete_text_uc.rs
@@ -54,6 +54,9 @@ pub trait DeleteTextUnitOfWorkTrait: CommandUnitOfWork {}
 pub struct DeleteTextUseCase {
     uow_factory: Box<dyn DeleteTextUnitOfWorkFactoryTrait>,
     undo_snapshot: Option<EntityTreeSnapshot>,
+    /// State to go back to on redo. Executing again would mint new entity
+    /// ids, and later commands refer to the original ones.
+    redo_snapshot: Option<EntityTreeSnapshot>,
     last_dto: Option<DeleteTextDto>,
     last_result: Option<DeleteTextResultDto>,
     last_merge_time: Option<Instant>,
@@ -916,6 +919,7 @@ impl DeleteTextUseCase {
         DeleteTextUseCase {
             uow_factory,
             undo_snapshot: None,
+            redo_snapshot: None,
             last_dto: None,
             last_result: None,
             last_merge_time: None,
@@ -949,6 +953,7 @@ impl UndoRedoCommand for DeleteTextUseCase {
 
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
+        self.redo_snapshot = Some(uow.snapshot_document(&[])?);
         uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
@@ -963,6 +968,10 @@ impl UndoRedoCommand for DeleteTextUseCase {
 
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
+        if let Some(snapshot) = self.redo_snapshot.take() {
+            uow.restore_document(&snapshot)?;
+            return uow.commit();
+        }
         let (_, snapshot) = execute_delete(&mut uow, &dto)?;
         self.undo_snapshot = Some(snapshot);
         uow.commit()?;
diff --git a/crates/document_editing/src/use_cases/insert_block_uc.rs b/crates/document_editing/src/use_cases/insert_block_uc.rs
index a5c0266..9764dc0 100644
--- a/crates/document_editing/src/use_cases/insert_block_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_block_uc.rs
@@ -45,6 +45,9 @@ pub trait InsertBlockUnitOfWorkTrait: CommandUnitOfWork {}
 pub struct InsertBlockUseCase {
     uow_factory: Box<dyn InsertBlockUnitOfWorkFactoryTrait>,
     undo_snapshot: Option<EntityTreeSnapshot>,
+    /// State to go back to on redo. Executing again would mint new entity
+    /// ids, and later commands refer to the original ones.
+    redo_snapshot: Option<EntityTreeSnapshot>,
     last_dto: Option<InsertBlockDto>,
 }
 
@@ -267,6 +270,7 @@ impl InsertBlockUseCase {
         InsertBlockUseCase {
             uow_factory,
             undo_snapshot: None,
+            redo_snapshot: None,
             last_dto: None,
         }
     }
@@ -294,6 +298,7 @@ impl UndoRedoCommand for InsertBlockUseCase {
 
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
+        self.redo_snapshot = Some(uow.snapshot_document(&[])?);
         uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
@@ -308,6 +313,10 @@ impl UndoRedoCommand for InsertBlockUseCase {
 
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
+        if let Some(snapshot) = self.redo_snapshot.take() {
+            uow.restore_document(&snapshot)?;
+            return uow.commit();
+        }
         let (_, snapshot) = execute_insert_block(&mut uow, &dto)?;
         self.undo_snapshot = Some(snapshot);
         uow.commit()?;
diff --git a/crates/document_editing/src/use_cases/insert_fragment_uc.rs b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
index 08a5c85..33525fc 100644
--- a/crates/document_editing/src/use_cases/insert_fragment_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
@@ -2464,6 +2464,9 @@ fn execute_insert_fragment(
 pub struct InsertFragmentUseCase {
     uow_factory: Box<dyn InsertFragmentUnitOfWorkFactoryTrait>,
     undo_snapshot: Option<EntityTreeSnapshot>,
+    /// State to go back to on redo. Executing again would mint new entity
+    /// ids, and later commands refer to the original ones.
+    redo_snapshot: Option<EntityTreeSnapshot>,
     last_dto: Option<InsertFragmentDto>,
 }
 
@@ -2472,6 +2475,7 @@ impl InsertFragmentUseCase {
         InsertFragmentUseCase {
             uow_factory,
             undo_snapshot: None,
+            redo_snapshot: None,
             last_dto: None,
         }
     }
@@ -2499,6 +2503,7 @@ impl UndoRedoCommand for InsertFragmentUseCase {
 
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
+        self.redo_snapshot = Some(uow.snapshot_document(&[])?);
         uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
@@ -2513,6 +2518,10 @@ impl UndoRedoCommand for InsertFragmentUseCase {
 
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
+        if let Some(snapshot) = self.redo_snapshot.take() {
+            uow.restore_document(&snapshot)?;
+            return uow.commit();
+        }
         let (_, snapshot) = execute_insert_fragment(&mut uow, &dto)?;
         self.undo_snapshot = Some(snapshot);
         uow.commit()?;
diff --git a/crates/document_editing/src/use_cases/insert_frame_uc.rs b/crates/document_editing/src/use_cases/insert_frame_uc.rs
index 2998196..e59f284 100644
--- a/crates/document_editing/src/use_cases/insert_frame_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_frame_uc.rs
@@ -35,6 +35,9 @@ pub trait InsertFrameUnitOfWorkTrait: CommandUnitOfWork {}
 pub struct InsertFrameUseCase {
     uow_factory: Box<dyn InsertFrameUnitOfWorkFactoryTrait>,
     undo_snapshot: Option<EntityTreeSnapshot>,
+    /// State to go back to on redo. Executing again would mint new entity
+    /// ids, and later commands refer to the original ones.
+    redo_snapshot: Option<EntityTreeSnapshot>,
     last_dto: Option<InsertFrameDto>,
 }
 
@@ -216,6 +219,7 @@ impl InsertFrameUseCase {
         InsertFrameUseCase {
             uow_factory,
             undo_snapshot: None,
+            redo_snapshot: None,
             last_dto: None,
         }
     }
@@ -243,6 +247,7 @@ impl UndoRedoCommand for InsertFrameUseCase {
 
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
+        self.redo_snapshot = Some(uow.snapshot_document(&[])?);
         uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
@@ -257,6 +262,10 @@ impl UndoRedoCommand for InsertFrameUseCase {
 
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
+        if let Some(snapshot) = self.redo_snapshot.take() {
+            uow.restore_document(&snapshot)?;
+            return uow.commit();
+        }
         let (_, snapshot) = execute_insert_frame(&mut uow, &dto)?;
         self.undo_snapshot = Some(snapshot);
         uow.commit()?;
diff --git a/crates/document_editing/src/use_cases/insert_list_uc.rs b/crates/document_editing/src/use_cases/insert_list_uc.rs
index 48ebbd3..ca384c7 100644
--- a/crates/document_editing/src/use_cases/insert_list_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_list_uc.rs
@@ -41,6 +41,9 @@ pub trait InsertListUnitOfWorkTrait: CommandUnitOfWork {}
 pub struct InsertListUseCase {
     uow_factory: Box<dyn InsertListUnitOfWorkFactoryTrait>,
     undo_snapshot: Option<EntityTreeSnapshot>,
+    /// State to go back to on redo. Executing again would mint new entity
+    /// ids, and later commands refer to the original ones.
+    redo_snapshot: Option<EntityTreeSnapshot>,
     last_dto: Option<InsertListDto>,
 }
 
@@ -191,6 +194,7 @@ impl InsertListUseCase {
         InsertListUseCase {
             uow_factory,
             undo_snapshot: None,
+            redo_snapshot: None,
             last_dto: None,
         }
     }
@@ -218,6 +222,7 @@ impl UndoRedoCommand for InsertListUseCase {
 
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
+        self.redo_snapshot = Some(uow.snapshot_document(&[])?);
         uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
@@ -232,6 +237,10 @@ impl UndoRedoCommand for InsertListUseCase {
 
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
+        if let Some(snapshot) = self.redo_snapshot.take() {
+            uow.restore_document(&snapshot)?;
+            return uow.commit();
+        }
         let (_, snapshot) = execute_insert_list(&mut uow, &dto)?;
         self.undo_snapshot = Some(snapshot);
         uow.commit()?;
diff --git a/crates/document_editing/src/use_cases/insert_table_column_uc.rs b/crates/document_editing/src/use_cases/insert_table_column_uc.rs
index dc92612..be81b74 100644
--- a/crates/document_editing/src/use_cases/insert_table_column_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_table_column_uc.rs
@@ -48,6 +48,9 @@ impl_cell_block_reader!(dyn InsertTableColumnUnitOfWorkTrait);
 pub struct InsertTableColumnUseCase {
     uow_factory: Box<dyn InsertTableColumnUnitOfWorkFactoryTrait>,
     undo_snapshot: Option<EntityTreeSnapshot>,
+    /// State to go back to on redo. Executing again would mint new entity
+    /// ids, and later commands refer to the original ones.
+    redo_snapshot: Option<EntityTreeSnapshot>,
     last_dto: Option<InsertTableColumnDto>,
 }
 
@@ -226,6 +229,7 @@ impl InsertTableColumnUseCase {
         InsertTableColumnUseCase {
             uow_factory,
             undo_snapshot: None,
+            redo_snapshot: None,
             last_dto: None,
         }
     }
@@ -250,6 +254,7 @@ impl UndoRedoCommand for InsertTableColumnUseCase {
             .clone();
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
+        self.redo_snapshot = Some(uow.snapshot_document(&[])?);
         uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
@@ -263,6 +268,10 @@ impl UndoRedoCommand for InsertTableColumnUseCase {
             .clone();
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
+        if let Some(snapshot) = self.redo_snapshot.take() {
+            uow.restore_document(&snapshot)?;
+            return uow.commit();
+        }
         let (_, snapshot) = execute_insert_table_column(&mut uow, &dto)?;
         self.undo_snapshot = Some(snapshot);
         uow.commit()?;
diff --git a/crates/document_editing/src/use_cases/insert_table_row_uc.rs b/crates/document_editing/src/use_cases/insert_table_row_uc.rs
index 88a858c..a7b2daa 100644
--- a/crates/document_editing/src/use_cases/insert_table_row_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_table_row_uc.rs
@@ -48,6 +48,9 @@ impl_cell_block_reader!(dyn InsertTableRowUnitOfWorkTrait);
 pub struct InsertTableRowUseCase {
     uow_factory: Box<dyn InsertTableRowUnitOfWorkFactoryTrait>,
     undo_snapshot: Option<EntityTreeSnapshot>,
+    /// State to go back to on redo. Executing again would mint new entity
+    /// ids, and later commands refer to the original ones.
+    redo_snapshot: Option<EntityTreeSnapshot>,
     last_dto: Option<InsertTableRowDto>,
 }
 
@@ -224,6 +227,7 @@ impl InsertTableRowUseCase {
         InsertTableRowUseCase {
             uow_factory,
             undo_snapshot: None,
+            redo_snapshot: None,
             last_dto: None,
         }
     }
@@ -248,6 +252,7 @@ impl UndoRedoCommand for InsertTableRowUseCase {
             .clone();
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
+        self.redo_snapshot = Some(uow.snapshot_document(&[])?);
         uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
@@ -261,6 +266,10 @@ impl UndoRedoCommand for InsertTableRowUseCase {
             .clone();
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
+        if let Some(snapshot) = self.redo_snapshot.take() {
+            uow.restore_document(&snapshot)?;
+            return uow.commit();
+        }
         let (_, snapshot) = execute_insert_table_row(&mut uow, &dto)?;
         self.undo_snapshot = Some(snapshot);
         uow.commit()?;
diff --git a/crates/document_editing/src/use_cases/insert_table_uc.rs b/crates/document_editing/src/use_cases/insert_table_uc.rs
index ec8369c..5b63775 100644
--- a/crates/document_editing/src/use_cases/insert_table_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_table_uc.rs
@@ -48,6 +48,9 @@ impl_cell_frame_creator!(dyn InsertTableUnitOfWorkTrait);
 pub struct InsertTableUseCase {
     uow_factory: Box<dyn InsertTableUnitOfWorkFactoryTrait>,
     undo_snapshot: Option<EntityTreeSnapshot>,
+    /// State to go back to on redo. Executing again would mint new entity
+    /// ids, and later commands refer to the original ones.
+    redo_snapshot: Option<EntityTreeSnapshot>,
     last_dto: Option<InsertTableDto>,
 }
 
@@ -500,6 +503,7 @@ impl InsertTableUseCase {
         InsertTableUseCase {
             uow_factory,
             undo_snapshot: None,
+            redo_snapshot: None,
             last_dto: None,
         }
     }
@@ -527,6 +531,7 @@ impl UndoRedoCommand for InsertTableUseCase {
 
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
+        self.redo_snapshot = Some(uow.snapshot_document(&[])?);
         uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
@@ -541,6 +546,10 @@ impl UndoRedoCommand for InsertTableUseCase {
 
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
+        if let Some(snapshot) = self.redo_snapshot.take() {
+            uow.restore_document(&snapshot)?;
+            return uow.commit();
+        }
         let (_, snapshot) = execute_insert_table(&mut uow, &dto)?;
         self.undo_snapshot = Some(snapshot);
         uow.commit()?;
diff --git a/crates/document_editing/src/use_cases/split_table_cell_uc.rs b/crates/document_editing/src/use_cases/split_table_cell_uc.rs
index e13859a..26ed3b3 100644
--- a/crates/document_editing/src/use_cases/split_table_cell_uc.rs
+++ b/crates/document_editing/src/use_cases/split_table_cell_uc.rs
@@ -48,6 +48,9 @@ impl_cell_block_reader!(dyn SplitTableCellUnitOfWorkTrait);
 pub struct SplitTableCellUseCase {
     uow_factory: Box<dyn SplitTableCellUnitOfWorkFactoryTrait>,
     undo_snapshot: Option<EntityTreeSnapshot>,
+    /// State to go back to on redo. Executing again would mint new entity
+    /// ids, and later commands refer to the original ones.
+    redo_snapshot: Option<EntityTreeSnapshot>,
     last_dto: Option<SplitTableCellDto>,
 }
 
@@ -271,6 +274,7 @@ impl SplitTableCellUseCase {
         SplitTableCellUseCase {
             uow_factory,
             undo_snapshot: None,
+            redo_snapshot: None,
             last_dto: None,
         }
     }
@@ -295,6 +299,7 @@ impl UndoRedoCommand for SplitTableCellUseCase {
             .clone();
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
+        self.redo_snapshot = Some(uow.snapshot_document(&[])?);
         uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
@@ -308,6 +313,10 @@ impl UndoRedoCommand for SplitTableCellUseCase {
             .clone();
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
+        if let Some(snapshot) = self.redo_snapshot.take() {
+            uow.restore_document(&snapshot)?;
+            return uow.commit();
+        }
         let (_, snapshot) = execute_split_table_cell(&mut uow, &dto)?;
         self.undo_snapshot = Some(snapshot);
         uow.commit()?;
-- 
2.43.0


From a5df2b79a6aac099056e7a1e7838ec4f03177445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:06 +0000
Subject: [PATCH 05/55] fix: redo of merged typing still replaces the selection

Merging the next keystroke into an insertion that replaced a selection
collapsed the recorded anchor, so redo inserted without deleting.
---
 crates/document_editing/src/use_cases/insert_text_uc.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/document_editing/src/use_cases/insert_text_uc.rs b/crates/document_editing/src/use_cases/insert_text_uc.rs
index da5cfed..3795f36 100644
--- a/crates/document_editing/src/use_cases/insert_text_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_text_uc.rs
@@ -643,7 +643,6 @@ impl UndoRedoCommand for InsertTextUseCase {
 
         if let (Some(self_dto), Some(other_dto)) = (&mut self.last_dto, &other_cmd.last_dto) {
             self_dto.text.push_str(&other_dto.text);
-            self_dto.anchor = self_dto.position;
         }
         if let Some(other_result) = &other_cmd.last_result {
             self.last_result = Some(other_result.clone());
-- 
2.43.0


From 9cea31dc105a14304f95ea7fc8f2b0e932051c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:06 +0000
Subject: [PATCH 06/55] fix: a finished composite no longer blocks composites
 on other stacks

composite_stack_id survived end_composite() and clear_all_stacks(), so
begin_composite() on any other stack was refused although no composite
was in progress.
---
 crates/common/src/undo_redo.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/common/src/undo_redo.rs b/crates/common/src/undo_redo.rs
index 1fe132a..1406611 100644
--- a/crates/common/src/undo_redo.rs
+++ b/crates/common/src/undo_redo.rs
@@ -360,6 +360,7 @@ impl UndoRedoManager {
                 stack.undo_stack.push(Box::new(composite));
                 stack.redo_stack.clear();
             }
+            self.composite_stack_id = None;
             // not sure if we want to send events for composites
             if let Some(event_hub) = &self.event_hub {
                 event_hub.send_event(Event {
@@ -486,6 +487,7 @@ impl UndoRedoManager {
         }
         self.in_progress_composite = None;
         self.composite_nesting_level = 0;
+        self.composite_stack_id = None;
     }
 
     /// Creates a new undo/redo stack and returns its ID.
-- 
2.43.0


From 36bf0a8313897172f9acbd18a16c62439037849b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:40 +0000
Subject: [PATCH 07/55] fix: read the cursor position under the document lock

Editing methods read the position first and locked the document after;
an edit on another thread in between moved the cursor, and the operation
was then applied at the stale position.
---
 crates/public_api/src/cursor.rs | 61 ++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 32 deletions(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index 309a43c..07bf76f 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -53,12 +53,9 @@ pub struct TextCursor {
 
 impl Clone for TextCursor {
     fn clone(&self) -> Self {
-        let (position, anchor) = {
-            let d = self.data.lock();
-            (d.position, d.anchor)
-        };
         let data = {
             let mut inner = self.doc.lock();
+            let (position, anchor) = self.read_cursor();
             let data = Arc::new(Mutex::new(CursorData {
                 position,
                 anchor,
@@ -75,8 +72,10 @@ impl Clone for TextCursor {
 }
 
 impl TextCursor {
-    // ── Helpers (called while doc lock is NOT held) ──────────
+    // ── Helpers ──────────────────────────────────────────────
 
+    /// Position and anchor. Editing methods must call this while they hold
+    /// the doc lock: another thread's edit may move this cursor until then.
     fn read_cursor(&self) -> (usize, usize) {
         let d = self.data.lock();
         (d.position, d.anchor)
@@ -166,13 +165,13 @@ impl TextCursor {
 
     /// Get the selected text. Returns empty string if no selection.
     pub fn selected_text(&self) -> Result<String> {
+        let inner = self.doc.lock();
         let (pos, anchor) = self.read_cursor();
         if pos == anchor {
             return Ok(String::new());
         }
         let start = pos.min(anchor);
         let len = pos.max(anchor) - start;
-        let inner = self.doc.lock();
         let dto = frontend::document_inspection::GetTextAtPositionDto {
             position: to_i64(start),
             length: to_i64(len),
@@ -389,17 +388,16 @@ impl TextCursor {
 
     /// Insert plain text at the cursor. Replaces selection if any.
     pub fn insert_text(&self, text: &str) -> Result<()> {
-        let (pos, anchor) = self.read_cursor();
-
-        // Try direct insert first (handles same-block selection and no-selection cases)
-        let dto = frontend::document_editing::InsertTextDto {
-            position: to_i64(pos),
-            anchor: to_i64(anchor),
-            text: text.into(),
-        };
-
         let queued = {
             let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
+
+            // Try direct insert first (handles same-block selection and no-selection cases)
+            let dto = frontend::document_editing::InsertTextDto {
+                position: to_i64(pos),
+                anchor: to_i64(anchor),
+                text: text.into(),
+            };
             let result = match document_editing_commands::insert_text(
                 &inner.ctx,
                 Some(inner.stack_id),
@@ -455,8 +453,6 @@ impl TextCursor {
 
     /// Insert text with a specific character format. Replaces selection if any.
     pub fn insert_formatted_text(&self, text: &str, format: &TextFormat) -> Result<()> {
-        let (pos, anchor) = self.read_cursor();
-
         let make_dto = |p: usize, a: usize| frontend::document_editing::InsertFormattedTextDto {
             position: to_i64(p),
             anchor: to_i64(a),
@@ -471,6 +467,7 @@ impl TextCursor {
 
         let queued = {
             let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
             let result = match document_editing_commands::insert_formatted_text(
                 &inner.ctx,
                 Some(inner.stack_id),
@@ -521,9 +518,9 @@ impl TextCursor {
 
     /// Insert a block break (new paragraph). Replaces selection if any.
     pub fn insert_block(&self) -> Result<()> {
-        let (pos, anchor) = self.read_cursor();
         let queued = {
             let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
 
             let (insert_pos, removed) = if pos != anchor {
                 // Selection active: delete first, then split (Word convention)
@@ -584,9 +581,9 @@ impl TextCursor {
 
     /// Insert a document fragment at the cursor. Replaces selection if any.
     pub fn insert_fragment(&self, fragment: &DocumentFragment) -> Result<()> {
-        let (pos, anchor) = self.read_cursor();
         let queued = {
             let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
 
             let (insert_pos, removed) = if pos != anchor {
                 undo_redo_commands::begin_composite(&inner.ctx, Some(inner.stack_id));
@@ -685,9 +682,9 @@ impl TextCursor {
 
     /// Insert an image at the cursor. Replaces selection if any.
     pub fn insert_image(&self, name: &str, width: u32, height: u32) -> Result<()> {
-        let (pos, anchor) = self.read_cursor();
         let queued = {
             let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
 
             let (insert_pos, removed) = if pos != anchor {
                 undo_redo_commands::begin_composite(&inner.ctx, Some(inner.stack_id));
@@ -738,9 +735,9 @@ impl TextCursor {
 
     /// Insert a new frame at the cursor.
     pub fn insert_frame(&self) -> Result<()> {
-        let (pos, anchor) = self.read_cursor();
         let queued = {
             let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
             let dto = frontend::document_editing::InsertFrameDto {
                 position: to_i64(pos),
                 anchor: to_i64(anchor),
@@ -771,9 +768,9 @@ impl TextCursor {
     /// The cursor moves into the first cell of the table.
     /// Returns a handle to the created table.
     pub fn insert_table(&self, rows: usize, columns: usize) -> Result<TextTable> {
-        let (pos, anchor) = self.read_cursor();
         let (table_id, queued) = {
             let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
             let dto = frontend::document_editing::InsertTableDto {
                 position: to_i64(pos),
                 anchor: to_i64(anchor),
@@ -1600,12 +1597,12 @@ impl TextCursor {
 
     /// Delete the selected text. Returns the deleted text. No-op if no selection.
     pub fn remove_selected_text(&self) -> Result<String> {
-        let (pos, anchor) = self.read_cursor();
-        if pos == anchor {
-            return Ok(String::new());
-        }
         let queued = {
             let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
+            if pos == anchor {
+                return Ok(String::new());
+            }
             let dto = frontend::document_editing::DeleteTextDto {
                 position: to_i64(pos),
                 anchor: to_i64(anchor),
@@ -1661,9 +1658,9 @@ impl TextCursor {
 
     /// Turn the block(s) in the selection into a list.
     pub fn create_list(&self, style: ListStyle) -> Result<()> {
-        let (pos, anchor) = self.read_cursor();
         let queued = {
             let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
             let dto = frontend::document_editing::CreateListDto {
                 position: to_i64(pos),
                 anchor: to_i64(anchor),
@@ -1686,9 +1683,9 @@ impl TextCursor {
 
     /// Insert a new list item at the cursor position.
     pub fn insert_list(&self, style: ListStyle) -> Result<()> {
-        let (pos, anchor) = self.read_cursor();
         let queued = {
             let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
             let dto = frontend::document_editing::InsertListDto {
                 position: to_i64(pos),
                 anchor: to_i64(anchor),
@@ -1902,9 +1899,9 @@ impl TextCursor {
 
     /// Set the character format for the selection.
     pub fn set_char_format(&self, format: &TextFormat) -> Result<()> {
-        let (pos, anchor) = self.read_cursor();
         let queued = {
             let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
             let dto = format.to_set_dto(pos, anchor);
             document_formatting_commands::set_text_format(&inner.ctx, Some(inner.stack_id), &dto)?;
             let start = pos.min(anchor);
@@ -1923,9 +1920,9 @@ impl TextCursor {
 
     /// Merge a character format into the selection.
     pub fn merge_char_format(&self, format: &TextFormat) -> Result<()> {
-        let (pos, anchor) = self.read_cursor();
         let queued = {
             let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
             let dto = format.to_merge_dto(pos, anchor);
             document_formatting_commands::merge_text_format(
                 &inner.ctx,
@@ -1948,9 +1945,9 @@ impl TextCursor {
 
     /// Set the block format for the current block (or all blocks in selection).
     pub fn set_block_format(&self, format: &BlockFormat) -> Result<()> {
-        let (pos, anchor) = self.read_cursor();
         let queued = {
             let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
             let dto = format.to_set_dto(pos, anchor);
             document_formatting_commands::set_block_format(&inner.ctx, Some(inner.stack_id), &dto)?;
             let start = pos.min(anchor);
@@ -1969,9 +1966,9 @@ impl TextCursor {
 
     /// Set the frame format.
     pub fn set_frame_format(&self, frame_id: usize, format: &FrameFormat) -> Result<()> {
-        let (pos, anchor) = self.read_cursor();
         let queued = {
             let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
             let dto = format.to_set_dto(pos, anchor, frame_id);
             document_formatting_commands::set_frame_format(&inner.ctx, Some(inner.stack_id), &dto)?;
             let start = pos.min(anchor);
-- 
2.43.0


From fe28439638e98f7ca1c72225df8cdaaa81788ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:46 +0000
Subject: [PATCH 08/55] fix: cancelling a nested composite keeps the
 surrounding group

cancel_composite() undid and discarded the commands of every open group,
and left the outer group without a composite to record into.
---
 crates/common/src/undo_redo.rs | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/crates/common/src/undo_redo.rs b/crates/common/src/undo_redo.rs
index 1406611..b845a32 100644
--- a/crates/common/src/undo_redo.rs
+++ b/crates/common/src/undo_redo.rs
@@ -203,6 +203,9 @@ pub struct UndoRedoManager {
     next_stack_id: u64,
     in_progress_composite: Option<CompositeCommand>,
     composite_nesting_level: usize,
+    /// Number of commands already in the composite when each currently open
+    /// (nested) group began.
+    composite_starts: Vec<usize>,
     composite_stack_id: Option<u64>,
     event_hub: Option<Arc<EventHub>>,
 }
@@ -223,6 +226,7 @@ impl UndoRedoManager {
             next_stack_id: 1,
             in_progress_composite: None,
             composite_nesting_level: 0,
+            composite_starts: Vec::new(),
             composite_stack_id: None,
             event_hub: None,
         }
@@ -322,9 +326,10 @@ impl UndoRedoManager {
         self.composite_nesting_level += 1;
 
         // If there's no composite in progress, create one
-        if self.in_progress_composite.is_none() {
-            self.in_progress_composite = Some(CompositeCommand::new(stack_id));
-        }
+        let composite = self
+            .in_progress_composite
+            .get_or_insert_with(|| CompositeCommand::new(stack_id));
+        self.composite_starts.push(composite.commands.len());
 
         // not sure if we want to send events for composites
         if let Some(event_hub) = &self.event_hub {
@@ -345,6 +350,7 @@ impl UndoRedoManager {
         // Decrement the nesting level
         if self.composite_nesting_level > 0 {
             self.composite_nesting_level -= 1;
+            self.composite_starts.pop();
         }
 
         // Only end the composite if we're at the outermost level
@@ -372,19 +378,26 @@ impl UndoRedoManager {
         }
     }
 
+    /// Cancels the innermost composite command group: undoes the commands
+    /// added since its `begin_composite`. The groups around it stay open.
     pub fn cancel_composite(&mut self) {
         // Decrement the nesting level
         if self.composite_nesting_level > 0 {
             self.composite_nesting_level -= 1;
         }
+        let start = self.composite_starts.pop().unwrap_or(0);
 
-        // Undo any sub-commands that were already executed in this composite
-        if let Some(ref mut composite) = self.in_progress_composite {
-            let _ = composite.undo();
+        // Undo the sub-commands that were already executed in this group
+        if let Some(composite) = &mut self.in_progress_composite {
+            for mut command in composite.commands.drain(start..).rev() {
+                let _ = command.undo();
+            }
         }
 
-        self.in_progress_composite = None;
-        self.composite_stack_id = None;
+        if self.composite_nesting_level == 0 {
+            self.in_progress_composite = None;
+            self.composite_stack_id = None;
+        }
 
         // not sure if we want to send events for composites
         if let Some(event_hub) = &self.event_hub {
@@ -487,6 +500,7 @@ impl UndoRedoManager {
         }
         self.in_progress_composite = None;
         self.composite_nesting_level = 0;
+        self.composite_starts.clear();
         self.composite_stack_id = None;
     }
 
-- 
2.43.0


From 9fdf88ac95a316464d807180a03a8d911249d686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:43 +0000
Subject: [PATCH 09/55] fix: a failed insertion over a selection no longer
 deletes the selection

The deletion stayed applied and its composite stayed open, so every later
edit disappeared into it and could not be undone any more.
---
 crates/public_api/src/cursor.rs | 42 +++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index 07bf76f..bff08d5 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -416,7 +416,8 @@ impl TextCursor {
                         &inner.ctx,
                         Some(inner.stack_id),
                         &del_dto,
-                    )?;
+                    )
+                    .inspect_err(|_| undo_redo_commands::cancel_composite(&inner.ctx))?;
                     let del_pos = to_usize(del_result.new_position);
 
                     let ins_dto = frontend::document_editing::InsertTextDto {
@@ -428,7 +429,8 @@ impl TextCursor {
                         &inner.ctx,
                         Some(inner.stack_id),
                         &ins_dto,
-                    )?;
+                    )
+                    .inspect_err(|_| undo_redo_commands::cancel_composite(&inner.ctx))?;
 
                     undo_redo_commands::end_composite(&inner.ctx);
                     ins_result
@@ -486,14 +488,16 @@ impl TextCursor {
                         &inner.ctx,
                         Some(inner.stack_id),
                         &del_dto,
-                    )?;
+                    )
+                    .inspect_err(|_| undo_redo_commands::cancel_composite(&inner.ctx))?;
                     let del_pos = to_usize(del_result.new_position);
 
                     let ins_result = document_editing_commands::insert_formatted_text(
                         &inner.ctx,
                         Some(inner.stack_id),
                         &make_dto(del_pos, del_pos),
-                    )?;
+                    )
+                    .inspect_err(|_| undo_redo_commands::cancel_composite(&inner.ctx))?;
 
                     undo_redo_commands::end_composite(&inner.ctx);
                     ins_result
@@ -533,7 +537,8 @@ impl TextCursor {
                     &inner.ctx,
                     Some(inner.stack_id),
                     &del_dto,
-                )?;
+                )
+                .inspect_err(|_| undo_redo_commands::cancel_composite(&inner.ctx))?;
                 (
                     to_usize(del_result.new_position),
                     pos.max(anchor) - pos.min(anchor),
@@ -547,7 +552,12 @@ impl TextCursor {
                 anchor: to_i64(insert_pos),
             };
             let result =
-                document_editing_commands::insert_block(&inner.ctx, Some(inner.stack_id), &dto)?;
+                document_editing_commands::insert_block(&inner.ctx, Some(inner.stack_id), &dto)
+                    .inspect_err(|_| {
+                        if pos != anchor {
+                            undo_redo_commands::cancel_composite(&inner.ctx);
+                        }
+                    })?;
 
             if pos != anchor {
                 undo_redo_commands::end_composite(&inner.ctx);
@@ -595,7 +605,8 @@ impl TextCursor {
                     &inner.ctx,
                     Some(inner.stack_id),
                     &del_dto,
-                )?;
+                )
+                .inspect_err(|_| undo_redo_commands::cancel_composite(&inner.ctx))?;
                 (
                     to_usize(del_result.new_position),
                     pos.max(anchor) - pos.min(anchor),
@@ -610,7 +621,12 @@ impl TextCursor {
                 fragment_data: fragment.raw_data().into(),
             };
             let result =
-                document_editing_commands::insert_fragment(&inner.ctx, Some(inner.stack_id), &dto)?;
+                document_editing_commands::insert_fragment(&inner.ctx, Some(inner.stack_id), &dto)
+                    .inspect_err(|_| {
+                        if pos != anchor {
+                            undo_redo_commands::cancel_composite(&inner.ctx);
+                        }
+                    })?;
 
             if pos != anchor {
                 undo_redo_commands::end_composite(&inner.ctx);
@@ -696,7 +712,8 @@ impl TextCursor {
                     &inner.ctx,
                     Some(inner.stack_id),
                     &del_dto,
-                )?;
+                )
+                .inspect_err(|_| undo_redo_commands::cancel_composite(&inner.ctx))?;
                 (
                     to_usize(del_result.new_position),
                     pos.max(anchor) - pos.min(anchor),
@@ -713,7 +730,12 @@ impl TextCursor {
                 height: height as i64,
             };
             let result =
-                document_editing_commands::insert_image(&inner.ctx, Some(inner.stack_id), &dto)?;
+                document_editing_commands::insert_image(&inner.ctx, Some(inner.stack_id), &dto)
+                    .inspect_err(|_| {
+                        if pos != anchor {
+                            undo_redo_commands::cancel_composite(&inner.ctx);
+                        }
+                    })?;
 
             if pos != anchor {
                 undo_redo_commands::end_composite(&inner.ctx);
-- 
2.43.0


From 82db3eb3f439c02f99b83f766fbabceeb21f0032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:30 +0000
Subject: [PATCH 10/55] fix: set_markdown and set_html clear the undo history

Both are documented to clear it, as set_plain_text does, but kept it; a
later undo() then restored pieces of the replaced document. The plain
text cached while the import was running is dropped as well.
---
 crates/public_api/src/document.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/crates/public_api/src/document.rs b/crates/public_api/src/document.rs
index 1fdd02d..5ac8a96 100644
--- a/crates/public_api/src/document.rs
+++ b/crates/public_api/src/document.rs
@@ -106,6 +106,7 @@ impl TextDocument {
                     if let Some(inner) = w.upgrade() {
                         let op_id = parse_id_data(&event.data);
                         let mut inner = inner.lock();
+                        inner.invalidate_text_cache();
                         inner.queue_event(DocumentEvent::DocumentReset);
                         inner.check_block_count_changed();
                         inner.reset_cached_child_order();
@@ -200,7 +201,12 @@ impl TextDocument {
             markdown_text: markdown.into(),
         };
         let op_id = document_io_commands::import_markdown(&inner.ctx, &dto)?;
-        Ok(Operation::new(
+        undo_redo_commands::clear_stack(&inner.ctx, inner.stack_id);
+        inner.queue_event(DocumentEvent::UndoRedoChanged {
+            can_undo: false,
+            can_redo: false,
+        });
+        let operation = Operation::new(
             op_id,
             &inner.ctx,
             Box::new(|ctx, id| {
@@ -213,7 +219,11 @@ impl TextDocument {
                         })
                     })
             }),
-        ))
+        );
+        let queued = inner.take_queued_events();
+        drop(inner);
+        crate::inner::dispatch_queued_events(queued);
+        Ok(operation)
     }
 
     /// Export the entire document as Markdown.
@@ -233,7 +243,12 @@ impl TextDocument {
             html_text: html.into(),
         };
         let op_id = document_io_commands::import_html(&inner.ctx, &dto)?;
-        Ok(Operation::new(
+        undo_redo_commands::clear_stack(&inner.ctx, inner.stack_id);
+        inner.queue_event(DocumentEvent::UndoRedoChanged {
+            can_undo: false,
+            can_redo: false,
+        });
+        let operation = Operation::new(
             op_id,
             &inner.ctx,
             Box::new(|ctx, id| {
@@ -246,7 +261,11 @@ impl TextDocument {
                         })
                     })
             }),
-        ))
+        );
+        let queued = inner.take_queued_events();
+        drop(inner);
+        crate::inner::dispatch_queued_events(queued);
+        Ok(operation)
     }
 
     /// Export the entire document as HTML.
-- 
2.43.0


From 5526c8806f6936b6d9940dac0829149dbc9739a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:03 +0000
Subject: [PATCH 11/55] fix: set_block_format reaches the block of a cursor at
 its end

A cursor after the last character of a non-empty block matched no block
at all, so the format was silently dropped.
---
 .../src/use_cases/set_block_format_uc.rs             | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/crates/document_formatting/src/use_cases/set_block_format_uc.rs b/crates/document_formatting/src/use_cases/set_block_format_uc.rs
index 207a689..23af34f 100644
--- a/crates/document_formatting/src/use_cases/set_block_format_uc.rs
+++ b/crates/document_formatting/src/use_cases/set_block_format_uc.rs
@@ -92,14 +92,10 @@ fn execute_set_block_format(
         let block_start = block.document_position;
         let block_end = block_start + block_char_length(block, &store);
 
-        // Block overlaps the range if its text interval [block_start, block_end)
-        // intersects [range_start, range_end].  Empty blocks (text_length == 0)
-        // are included when their position falls inside the range.
-        let overlaps = if block_char_length(block, &store) > 0 {
-            block_start <= range_end && block_end > range_start
-        } else {
-            block_start >= range_start && block_start <= range_end
-        };
+        // Block overlaps the range if [block_start, block_end] intersects
+        // [range_start, range_end]. The end is inclusive: a cursor after the
+        // last character is still in the block.
+        let overlaps = block_start <= range_end && block_end >= range_start;
         if overlaps {
             let mut updated = block.clone();
             if let Some(ref a) = dto.alignment {
-- 
2.43.0


From a88b53ddd882b00a4658c01530b8defb0f36d82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:39 +0000
Subject: [PATCH 12/55] fix: a new document counts its initial block

---
 crates/public_api/src/inner.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/public_api/src/inner.rs b/crates/public_api/src/inner.rs
index ead96b9..d80584a 100644
--- a/crates/public_api/src/inner.rs
+++ b/crates/public_api/src/inner.rs
@@ -336,7 +336,10 @@ impl TextDocumentInner {
         let doc = document_commands::create_document(
             &ctx,
             Some(stack_id),
-            &CreateDocumentDto::default(),
+            &CreateDocumentDto {
+                block_count: 1, // the initial empty block created below
+                ..Default::default()
+            },
             root.id,
             -1,
         )?;
-- 
2.43.0


From 4e4692371098fc430bf95d1b450692f0a39eb126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:51 +0000
Subject: [PATCH 13/55] fix: deleting beyond the end keeps the character count
 true

---
 .../document_editing/src/use_cases/delete_text_uc.rs   | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/document_editing/src/use_cases/delete_text_uc.rs b/crates/document_editing/src/use_cases/delete_text_uc.rs
index 89e9ae0..66e9275 100644
--- a/crates/document_editing/src/use_cases/delete_text_uc.rs
+++ b/crates/document_editing/src/use_cases/delete_text_uc.rs
@@ -597,7 +597,13 @@ fn execute_delete(
 
     let (end_block, end_block_idx, end_offset) =
         find_block_at_position(&blocks, end, &uow.store())?;
-    let delete_len = end - start;
+    // Both offsets are clamped to their blocks, so positions beyond the end
+    // of the document neither count as deleted nor become the new position.
+    let delete_len = if start_block_idx == end_block_idx {
+        end_offset - start_offset
+    } else {
+        end - start
+    };
 
     if start_block_idx == end_block_idx {
         // Same-block delete: splice plain_text + format_runs + block_images.
@@ -662,7 +668,7 @@ fn execute_delete(
 
         Ok((
             DeleteTextResultDto {
-                new_position: start,
+                new_position: start_block.document_position + start_offset,
                 deleted_text,
             },
             snapshot,
-- 
2.43.0


From 213d7b3c95b1439b3b04154d20e8e5699687072b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:51 +0000
Subject: [PATCH 14/55] fix: replacing the content brings cursors back inside
 the document

---
 crates/public_api/src/cursor.rs   |  2 +-
 crates/public_api/src/document.rs |  3 +++
 crates/public_api/src/inner.rs    | 19 +++++++++++++++++++
 3 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index bff08d5..12fd883 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -29,7 +29,7 @@ use crate::document::get_main_frame_id;
 /// Cursor positions include block separators (one between each pair of adjacent
 /// blocks), but `character_count` does not. The max position is therefore
 /// `character_count + (block_count - 1)`.
-fn max_cursor_position(stats: &frontend::document_inspection::DocumentStatsDto) -> usize {
+pub(crate) fn max_cursor_position(stats: &frontend::document_inspection::DocumentStatsDto) -> usize {
     let chars = to_usize(stats.character_count);
     let blocks = to_usize(stats.block_count);
     if blocks > 1 {
diff --git a/crates/public_api/src/document.rs b/crates/public_api/src/document.rs
index 5ac8a96..1fb957b 100644
--- a/crates/public_api/src/document.rs
+++ b/crates/public_api/src/document.rs
@@ -107,6 +107,7 @@ impl TextDocument {
                         let op_id = parse_id_data(&event.data);
                         let mut inner = inner.lock();
                         inner.invalidate_text_cache();
+                        inner.clamp_cursors();
                         inner.queue_event(DocumentEvent::DocumentReset);
                         inner.check_block_count_changed();
                         inner.reset_cached_child_order();
@@ -171,6 +172,7 @@ impl TextDocument {
             document_io_commands::import_plain_text(&inner.ctx, &dto)?;
             undo_redo_commands::clear_stack(&inner.ctx, inner.stack_id);
             inner.invalidate_text_cache();
+            inner.clamp_cursors();
             inner.rehighlight_all();
             inner.queue_event(DocumentEvent::DocumentReset);
             inner.check_block_count_changed();
@@ -322,6 +324,7 @@ impl TextDocument {
             document_io_commands::import_plain_text(&inner.ctx, &dto)?;
             undo_redo_commands::clear_stack(&inner.ctx, inner.stack_id);
             inner.invalidate_text_cache();
+            inner.clamp_cursors();
             inner.rehighlight_all();
             inner.queue_event(DocumentEvent::DocumentReset);
             inner.check_block_count_changed();
diff --git a/crates/public_api/src/inner.rs b/crates/public_api/src/inner.rs
index d80584a..c092f31 100644
--- a/crates/public_api/src/inner.rs
+++ b/crates/public_api/src/inner.rs
@@ -126,6 +126,25 @@ impl TextDocumentInner {
         }
     }
 
+    /// Bring every tracked cursor back inside the document.
+    ///
+    /// Called while the document lock is held, after the whole content was
+    /// replaced.
+    pub fn clamp_cursors(&mut self) {
+        let end = frontend::commands::document_inspection_commands::get_document_stats(&self.ctx)
+            .map(|s| crate::cursor::max_cursor_position(&s))
+            .unwrap_or(0);
+        self.prune_dead_cursors();
+        for weak in &self.cursors {
+            if let Some(cursor) = weak.upgrade() {
+                let mut data = cursor.lock();
+                data.position = data.position.min(end);
+                data.anchor = data.anchor.min(end);
+                data.cell_selection_override = None;
+            }
+        }
+    }
+
     /// Register a new cursor and return its shared data.
     pub fn register_cursor(&mut self, position: usize) -> Arc<Mutex<CursorData>> {
         self.prune_dead_cursors();
-- 
2.43.0


From 7de3f321997a9c35546dcf7208188829bc3c7f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:22 +0000
Subject: [PATCH 15/55] fix: inserting a fragment inside text keeps the
 character count true

---
 .../src/use_cases/insert_fragment_uc.rs               | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/document_editing/src/use_cases/insert_fragment_uc.rs b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
index 33525fc..41bdb18 100644
--- a/crates/document_editing/src/use_cases/insert_fragment_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
@@ -1005,8 +1005,10 @@ fn insert_mixed_fragment(
     // post-head-update content (same id as updated_current), so use the
     // pre-mutation char length captured at the top of the function.
     let head_delta = block_char_length(&updated_current, &store) - original_current_char_length;
+    // The text after the insertion point leaves the head for the tail block.
+    let moved_chars = text_after.chars().count() as i64 + right_image_count;
     let mut total_new_chars: i64 = if merge_first || overwrite_head {
-        head_delta
+        head_delta + moved_chars
     } else {
         0
     };
@@ -1816,8 +1818,10 @@ fn execute_insert_fragment(
         // Track (created_block_id, plain_text) for the rope mirror.
         let mut middle_block_payload: Vec<(EntityId, String)> = Vec::new();
         let head_delta = updated_current_char_length - original_current_char_length;
+        // The text after the insertion point leaves the head for the tail block.
+        let moved_chars = text_after.chars().count() as i64 + right_image_count;
         let mut total_new_chars: i64 = if merge_first || overwrite_head {
-            head_delta
+            head_delta + moved_chars
         } else {
             0
         };
@@ -2273,10 +2277,9 @@ fn execute_insert_fragment(
                 uow.update_block_multi(&blocks_to_update)?;
             }
 
-            let char_delta = block_text_len - original_current_char_length;
             let mut updated_doc = document.clone();
             updated_doc.block_count += blocks_added;
-            updated_doc.character_count += char_delta;
+            updated_doc.character_count += block_text_len;
             updated_doc.updated_at = now;
             uow.update_document(&updated_doc)?;
 
-- 
2.43.0


From cae945a9c1370220514a867703ca22f3981d9dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:25 +0000
Subject: [PATCH 16/55] fix: undo and redo report every removed and added
 character

---
 crates/public_api/src/document.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/public_api/src/document.rs b/crates/public_api/src/document.rs
index 1fb957b..0b57f42 100644
--- a/crates/public_api/src/document.rs
+++ b/crates/public_api/src/document.rs
@@ -1181,9 +1181,7 @@ fn emit_undo_redo_change_events(inner: &mut TextDocumentInner, before: &[UndoBlo
     }
 
     if content_changed {
-        let position = earliest_pos.unwrap_or(0);
-        let chars_removed = old_end.saturating_sub(position);
-        let chars_added = new_end.saturating_sub(position);
+        let mut position = earliest_pos.unwrap_or(0);
 
         // Use a precise text-level diff for cursor adjustment so cursors land
         // at the actual edit point rather than the end of the affected block.
@@ -1193,7 +1191,15 @@ fn emit_undo_redo_change_events(inner: &mut TextDocumentInner, before: &[UndoBlo
             compute_text_edit(&before_text, &after_text);
         if precise_removed > 0 || precise_added > 0 {
             inner.adjust_cursors(edit_offset, precise_removed, precise_added);
+            // The blocks' own ranges leave out the separators that came or
+            // went with them: widen the region to the precise edit.
+            position = position.min(edit_offset);
+            old_end = old_end.max(edit_offset + precise_removed);
         }
+        // Removed and added always account for the change in total length.
+        let old_end = old_end.max((new_end + precise_removed).saturating_sub(precise_added));
+        let chars_removed = old_end.saturating_sub(position);
+        let chars_added = (chars_removed + precise_added).saturating_sub(precise_removed);
 
         inner.queue_event(DocumentEvent::ContentsChanged {
             position,
-- 
2.43.0


From 6a7f8c97f51b261426a7cd0f01ea6b6f4a3b70b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:15 +0000
Subject: [PATCH 17/55] fix: undo and redo report character format and list
 changes

---
 crates/public_api/src/cursor.rs   |  4 ++-
 crates/public_api/src/document.rs | 41 +++++++++++++++++++++++++------
 2 files changed, 37 insertions(+), 8 deletions(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index 12fd883..54bf8c9 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -29,7 +29,9 @@ use crate::document::get_main_frame_id;
 /// Cursor positions include block separators (one between each pair of adjacent
 /// blocks), but `character_count` does not. The max position is therefore
 /// `character_count + (block_count - 1)`.
-pub(crate) fn max_cursor_position(stats: &frontend::document_inspection::DocumentStatsDto) -> usize {
+pub(crate) fn max_cursor_position(
+    stats: &frontend::document_inspection::DocumentStatsDto,
+) -> usize {
     let chars = to_usize(stats.character_count);
     let blocks = to_usize(stats.block_count);
     if blocks > 1 {
diff --git a/crates/public_api/src/document.rs b/crates/public_api/src/document.rs
index 0b57f42..1f50232 100644
--- a/crates/public_api/src/document.rs
+++ b/crates/public_api/src/document.rs
@@ -11,8 +11,8 @@ use base64::engine::general_purpose::STANDARD as BASE64;
 use crate::{ResourceType, TextDirection, WrapMode};
 use frontend::commands::{
     block_commands, document_commands, document_inspection_commands, document_io_commands,
-    document_search_commands, frame_commands, resource_commands, table_cell_commands,
-    table_commands, undo_redo_commands,
+    document_search_commands, frame_commands, list_commands, resource_commands,
+    table_cell_commands, table_commands, undo_redo_commands,
 };
 
 use crate::convert::{self, to_i64, to_usize};
@@ -1049,6 +1049,8 @@ struct UndoBlockState {
     text_length: i64,
     plain_text: String,
     format: BlockFormat,
+    runs: Vec<common::format_runs::FormatRun>,
+    list: Option<frontend::list::dtos::ListDto>,
 }
 
 /// Capture the state of all blocks, sorted by document_position.
@@ -1057,6 +1059,7 @@ fn capture_block_state(inner: &TextDocumentInner) -> Vec<UndoBlockState> {
         frontend::commands::block_commands::get_all_block(&inner.ctx).unwrap_or_default();
     let store = inner.ctx.db_context.get_store();
     crate::inner::refresh_block_positions(&mut all_blocks, store);
+    let format_runs = store.format_runs.read().unwrap().clone();
     let mut states: Vec<UndoBlockState> = all_blocks
         .into_iter()
         .map(|b| {
@@ -1065,12 +1068,18 @@ fn capture_block_state(inner: &TextDocumentInner) -> Vec<UndoBlockState> {
             let plain_text =
                 common::database::rope_helpers::block_content_via_store(&entity, store);
             let text_length = common::database::rope_helpers::block_char_length(&entity, store);
+            let runs = format_runs.get(&b.id).cloned().unwrap_or_default();
+            let list = b
+                .list
+                .and_then(|id| list_commands::get_list(&inner.ctx, &id).ok().flatten());
             UndoBlockState {
                 id: b.id,
                 position: b.document_position,
                 text_length,
                 plain_text,
                 format,
+                runs,
+                list,
             }
         })
         .collect();
@@ -1135,7 +1144,8 @@ fn emit_undo_redo_change_events(inner: &mut TextDocumentInner, before: &[UndoBlo
     let mut new_end: usize = 0;
     let mut blocks_affected: usize = 0;
 
-    let mut format_only_changes: Vec<(usize, usize)> = Vec::new(); // (position, length)
+    let mut format_only_changes: Vec<(usize, usize, FormatChangeKind)> = Vec::new(); // (position, length, kind)
+    let mut list_changed = false;
 
     // Check blocks present in both before and after.
     for after_state in &after {
@@ -1143,6 +1153,8 @@ fn emit_undo_redo_change_events(inner: &mut TextDocumentInner, before: &[UndoBlo
             let text_changed = before_state.plain_text != after_state.plain_text
                 || before_state.text_length != after_state.text_length;
             let format_changed = before_state.format != after_state.format;
+            let runs_changed = before_state.runs != after_state.runs;
+            list_changed |= before_state.list != after_state.list;
 
             if text_changed {
                 content_changed = true;
@@ -1154,10 +1166,15 @@ fn emit_undo_redo_change_events(inner: &mut TextDocumentInner, before: &[UndoBlo
                         + before_state.text_length.max(0) as usize,
                 );
                 new_end = new_end.max(pos + after_state.text_length.max(0) as usize);
-            } else if format_changed {
+            } else if format_changed || runs_changed {
                 let pos = after_state.position.max(0) as usize;
                 let len = after_state.text_length.max(0) as usize;
-                format_only_changes.push((pos, len));
+                let kind = if format_changed {
+                    FormatChangeKind::Block
+                } else {
+                    FormatChangeKind::Character
+                };
+                format_only_changes.push((pos, len, kind));
             }
         } else {
             // Block exists in after but not in before — new block from undo/redo.
@@ -1210,11 +1227,21 @@ fn emit_undo_redo_change_events(inner: &mut TextDocumentInner, before: &[UndoBlo
     }
 
     // Emit FormatChanged for blocks where only formatting changed (not content).
-    for (position, length) in format_only_changes {
+    for (position, length, kind) in format_only_changes {
         inner.queue_event(DocumentEvent::FormatChanged {
             position,
             length,
-            kind: FormatChangeKind::Block,
+            kind,
+        });
+    }
+
+    // List membership or list formatting changed: reported as the forward
+    // operations report it.
+    if list_changed {
+        inner.queue_event(DocumentEvent::FormatChanged {
+            position: 0,
+            length: 0,
+            kind: FormatChangeKind::List,
         });
     }
 }
-- 
2.43.0


From 7a4adb91065bea77518a09b0f70d4fc116db6b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:20 +0000
Subject: [PATCH 18/55] fix: replace_text reports its region and moves the
 cursors along

---
 crates/public_api/src/document.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/crates/public_api/src/document.rs b/crates/public_api/src/document.rs
index 1f50232..7eb291d 100644
--- a/crates/public_api/src/document.rs
+++ b/crates/public_api/src/document.rs
@@ -723,6 +723,7 @@ impl TextDocument {
         let (count, queued) = {
             let mut inner = self.inner.lock();
             let dto = options.to_replace_dto(query, replacement, replace_all);
+            let before = capture_block_state(&inner);
             let result =
                 document_search_commands::replace_text(&inner.ctx, Some(inner.stack_id), &dto)?;
             let count = to_usize(result.replacements_count);
@@ -730,16 +731,10 @@ impl TextDocument {
             if count > 0 {
                 inner.modified = true;
                 inner.rehighlight_all();
-                // Replacements are scattered across the document — we can't
-                // provide a single position/chars delta. Signal "content changed
-                // from position 0, affecting `count` sites" so the consumer
-                // knows to re-read.
-                inner.queue_event(DocumentEvent::ContentsChanged {
-                    position: 0,
-                    chars_removed: 0,
-                    chars_added: 0,
-                    blocks_affected: count,
-                });
+                // Replacements are scattered across the document: report the
+                // region spanning them and move the cursors along, as undo
+                // and redo do.
+                emit_undo_redo_change_events(&mut inner, &before);
                 inner.check_block_count_changed();
                 inner.check_flow_changed();
                 let can_undo = undo_redo_commands::can_undo(&inner.ctx, Some(inner.stack_id));
-- 
2.43.0


From 572afa1eda04fe70396710dce7d333cf0337402b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:09 +0000
Subject: [PATCH 19/55] fix: replacing nothing adds no undo step

---
 crates/document_search/src/document_search_controller.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/document_search/src/document_search_controller.rs b/crates/document_search/src/document_search_controller.rs
index b2373d4..57f356d 100644
--- a/crates/document_search/src/document_search_controller.rs
+++ b/crates/document_search/src/document_search_controller.rs
@@ -67,7 +67,10 @@ pub fn replace_text(
     let uow_context = ReplaceTextUnitOfWorkFactory::new(db_context, event_hub);
     let mut uc = ReplaceTextUseCase::new(Box::new(uow_context));
     let return_dto = uc.execute(dto)?;
-    undo_redo_manager.add_command_to_stack(Box::new(uc), stack_id)?;
+    // Nothing replaced: nothing to undo, and the redo history still applies.
+    if return_dto.replacements_count > 0 {
+        undo_redo_manager.add_command_to_stack(Box::new(uc), stack_id)?;
+    }
     // Notify that the handling manifest has been loaded
     event_hub.send_event(Event {
         origin: Origin::DocumentSearch(ReplaceText),
-- 
2.43.0


From 79d28f3053fb7d454cb3cf47fbd8f2a8fbec3476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:28 +0000
Subject: [PATCH 20/55] fix: backspaces merge with backspaces only, not with a
 following delete

---
 crates/public_api/src/cursor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index 54bf8c9..53257a1 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -1612,7 +1612,7 @@ impl TextCursor {
             if from == pos {
                 return Ok(());
             }
-            (from, pos)
+            (pos, from)
         } else {
             return Ok(());
         };
-- 
2.43.0


From 6ba3ea9ec4d059d54280a19246276574e96bf26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:20 +0000
Subject: [PATCH 21/55] fix: typing over a selection of blocks reports the flow
 change

---
 crates/public_api/src/cursor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index 53257a1..a914ede 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -448,7 +448,7 @@ impl TextCursor {
                 removed,
                 to_usize(result.new_position),
                 to_usize(result.blocks_affected),
-                false,
+                removed > 0, // a selection may span blocks
             )
         };
         crate::inner::dispatch_queued_events(queued);
@@ -515,7 +515,7 @@ impl TextCursor {
                 removed,
                 to_usize(result.new_position),
                 1,
-                false,
+                removed > 0, // a selection may span blocks
             )
         };
         crate::inner::dispatch_queued_events(queued);
-- 
2.43.0


From 5460f229cd27276be383a55563ab5ea98a5c4d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:22 +0000
Subject: [PATCH 22/55] fix: insert_list and insert_image report the flow
 change

---
 crates/public_api/src/cursor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index a914ede..65b18bf 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -750,7 +750,7 @@ impl TextCursor {
                 removed,
                 to_usize(result.new_position),
                 1,
-                false,
+                removed > 0, // a selection may span blocks
             )
         };
         crate::inner::dispatch_queued_events(queued);
@@ -1721,7 +1721,7 @@ impl TextCursor {
             // the separator inserted just before `new_position`. A selection
             // is left alone.
             let new_pos = to_usize(result.new_position);
-            self.finish_edit_ext(&mut inner, new_pos.saturating_sub(1), 0, new_pos, 1, false)
+            self.finish_edit_ext(&mut inner, new_pos.saturating_sub(1), 0, new_pos, 1, true)
         };
         crate::inner::dispatch_queued_events(queued);
         Ok(())
-- 
2.43.0


From 570db4f71d9d31d919b03fd78ee6fd0cbab74ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:36 +0000
Subject: [PATCH 23/55] fix: report undo availability whenever it changes

---
 crates/public_api/src/cursor.rs   | 10 ++++-
 crates/public_api/src/document.rs | 64 +++++++++++++++++++++----------
 crates/public_api/src/inner.rs    | 17 ++++++++
 3 files changed, 69 insertions(+), 22 deletions(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index 65b18bf..3beedaf 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -2019,8 +2019,14 @@ impl TextCursor {
 
     /// End the current edit block.
     pub fn end_edit_block(&self) {
-        let inner = self.doc.lock();
-        undo_redo_commands::end_composite(&inner.ctx);
+        let queued = {
+            let mut inner = self.doc.lock();
+            let before = inner.undo_availability();
+            undo_redo_commands::end_composite(&inner.ctx);
+            inner.check_undo_availability_changed(before);
+            inner.take_queued_events()
+        };
+        crate::inner::dispatch_queued_events(queued);
     }
 
     /// Alias for [`begin_edit_block`](Self::begin_edit_block).
diff --git a/crates/public_api/src/document.rs b/crates/public_api/src/document.rs
index 7eb291d..1cada8a 100644
--- a/crates/public_api/src/document.rs
+++ b/crates/public_api/src/document.rs
@@ -864,8 +864,14 @@ impl TextDocument {
 
     /// Clear all undo/redo history.
     pub fn clear_undo_redo(&self) {
-        let inner = self.inner.lock();
-        undo_redo_commands::clear_stack(&inner.ctx, inner.stack_id);
+        let queued = {
+            let mut inner = self.inner.lock();
+            let before = inner.undo_availability();
+            undo_redo_commands::clear_stack(&inner.ctx, inner.stack_id);
+            inner.check_undo_availability_changed(before);
+            inner.take_queued_events()
+        };
+        crate::inner::dispatch_queued_events(queued);
     }
 
     // ── Modified state ───────────────────────────────────────
@@ -902,12 +908,18 @@ impl TextDocument {
 
     /// Set the document title.
     pub fn set_title(&self, title: &str) -> Result<()> {
-        let inner = self.inner.lock();
-        let doc = document_commands::get_document(&inner.ctx, &inner.document_id)?
-            .ok_or_else(|| anyhow::anyhow!("document not found"))?;
-        let mut update: frontend::document::dtos::UpdateDocumentDto = doc.into();
-        update.title = title.into();
-        document_commands::update_document(&inner.ctx, Some(inner.stack_id), &update)?;
+        let queued = {
+            let mut inner = self.inner.lock();
+            let before = inner.undo_availability();
+            let doc = document_commands::get_document(&inner.ctx, &inner.document_id)?
+                .ok_or_else(|| anyhow::anyhow!("document not found"))?;
+            let mut update: frontend::document::dtos::UpdateDocumentDto = doc.into();
+            update.title = title.into();
+            document_commands::update_document(&inner.ctx, Some(inner.stack_id), &update)?;
+            inner.check_undo_availability_changed(before);
+            inner.take_queued_events()
+        };
+        crate::inner::dispatch_queued_events(queued);
         Ok(())
     }
 
@@ -923,12 +935,18 @@ impl TextDocument {
 
     /// Set the text direction.
     pub fn set_text_direction(&self, direction: TextDirection) -> Result<()> {
-        let inner = self.inner.lock();
-        let doc = document_commands::get_document(&inner.ctx, &inner.document_id)?
-            .ok_or_else(|| anyhow::anyhow!("document not found"))?;
-        let mut update: frontend::document::dtos::UpdateDocumentDto = doc.into();
-        update.text_direction = direction;
-        document_commands::update_document(&inner.ctx, Some(inner.stack_id), &update)?;
+        let queued = {
+            let mut inner = self.inner.lock();
+            let before = inner.undo_availability();
+            let doc = document_commands::get_document(&inner.ctx, &inner.document_id)?
+                .ok_or_else(|| anyhow::anyhow!("document not found"))?;
+            let mut update: frontend::document::dtos::UpdateDocumentDto = doc.into();
+            update.text_direction = direction;
+            document_commands::update_document(&inner.ctx, Some(inner.stack_id), &update)?;
+            inner.check_undo_availability_changed(before);
+            inner.take_queued_events()
+        };
+        crate::inner::dispatch_queued_events(queued);
         Ok(())
     }
 
@@ -944,12 +962,18 @@ impl TextDocument {
 
     /// Set the default wrap mode.
     pub fn set_default_wrap_mode(&self, mode: WrapMode) -> Result<()> {
-        let inner = self.inner.lock();
-        let doc = document_commands::get_document(&inner.ctx, &inner.document_id)?
-            .ok_or_else(|| anyhow::anyhow!("document not found"))?;
-        let mut update: frontend::document::dtos::UpdateDocumentDto = doc.into();
-        update.default_wrap_mode = mode;
-        document_commands::update_document(&inner.ctx, Some(inner.stack_id), &update)?;
+        let queued = {
+            let mut inner = self.inner.lock();
+            let before = inner.undo_availability();
+            let doc = document_commands::get_document(&inner.ctx, &inner.document_id)?
+                .ok_or_else(|| anyhow::anyhow!("document not found"))?;
+            let mut update: frontend::document::dtos::UpdateDocumentDto = doc.into();
+            update.default_wrap_mode = mode;
+            document_commands::update_document(&inner.ctx, Some(inner.stack_id), &update)?;
+            inner.check_undo_availability_changed(before);
+            inner.take_queued_events()
+        };
+        crate::inner::dispatch_queued_events(queued);
         Ok(())
     }
 
diff --git a/crates/public_api/src/inner.rs b/crates/public_api/src/inner.rs
index c092f31..964ffb0 100644
--- a/crates/public_api/src/inner.rs
+++ b/crates/public_api/src/inner.rs
@@ -248,6 +248,23 @@ impl TextDocumentInner {
         }
     }
 
+    /// Whether undo and redo are available, in this order.
+    pub fn undo_availability(&self) -> (bool, bool) {
+        use frontend::commands::undo_redo_commands::{can_redo, can_undo};
+        (
+            can_undo(&self.ctx, Some(self.stack_id)),
+            can_redo(&self.ctx, Some(self.stack_id)),
+        )
+    }
+
+    /// Queue an `UndoRedoChanged` event if the availability differs from `before`.
+    pub fn check_undo_availability_changed(&mut self, before: (bool, bool)) {
+        let (can_undo, can_redo) = self.undo_availability();
+        if (can_undo, can_redo) != before {
+            self.queue_event(crate::DocumentEvent::UndoRedoChanged { can_undo, can_redo });
+        }
+    }
+
     /// Check whether the main frame's `child_order` changed and queue
     /// `FlowElementsInserted` / `FlowElementsRemoved` events.
     ///
-- 
2.43.0


From 22fb46dcb1e6fc27c8b6e228038d0f40aa4bdae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:13 +0000
Subject: [PATCH 24/55] fix: create_list reports the list change of every block

---
 crates/public_api/src/cursor.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index 3beedaf..19b402f 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -1699,6 +1699,12 @@ impl TextCursor {
                 chars_added: 0,
                 blocks_affected: 1,
             });
+            // Every selected block joined the list, not only the first.
+            inner.queue_event(DocumentEvent::FormatChanged {
+                position: 0,
+                length: 0,
+                kind: crate::flow::FormatChangeKind::List,
+            });
             self.queue_undo_redo_event(&mut inner)
         };
         crate::inner::dispatch_queued_events(queued);
-- 
2.43.0


From 2d8a1f8fb42480a206efd8de8a49689cf160d20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:28 +0000
Subject: [PATCH 25/55] fix: adding a resource reports the undo step it makes

---
 crates/public_api/src/document.rs | 40 ++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/crates/public_api/src/document.rs b/crates/public_api/src/document.rs
index 1cada8a..c027746 100644
--- a/crates/public_api/src/document.rs
+++ b/crates/public_api/src/document.rs
@@ -757,24 +757,30 @@ impl TextDocument {
         mime_type: &str,
         data: &[u8],
     ) -> Result<()> {
-        let mut inner = self.inner.lock();
-        let dto = frontend::resource::dtos::CreateResourceDto {
-            created_at: Default::default(),
-            updated_at: Default::default(),
-            resource_type,
-            name: name.into(),
-            url: String::new(),
-            mime_type: mime_type.into(),
-            data_base64: BASE64.encode(data),
+        let queued = {
+            let mut inner = self.inner.lock();
+            let before = inner.undo_availability();
+            let dto = frontend::resource::dtos::CreateResourceDto {
+                created_at: Default::default(),
+                updated_at: Default::default(),
+                resource_type,
+                name: name.into(),
+                url: String::new(),
+                mime_type: mime_type.into(),
+                data_base64: BASE64.encode(data),
+            };
+            let created = resource_commands::create_resource(
+                &inner.ctx,
+                Some(inner.stack_id),
+                &dto,
+                inner.document_id,
+                -1,
+            )?;
+            inner.resource_cache.insert(name.to_string(), created.id);
+            inner.check_undo_availability_changed(before);
+            inner.take_queued_events()
         };
-        let created = resource_commands::create_resource(
-            &inner.ctx,
-            Some(inner.stack_id),
-            &dto,
-            inner.document_id,
-            -1,
-        )?;
-        inner.resource_cache.insert(name.to_string(), created.id);
+        crate::inner::dispatch_queued_events(queued);
         Ok(())
     }
 
-- 
2.43.0


From ee4d03a7a04d0b0071e784a95dc2d4b9ea852140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:07 +0000
Subject: [PATCH 26/55] fix: a resource name finds the data stored last, also
 across undo and redo

---
 crates/public_api/src/document.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/crates/public_api/src/document.rs b/crates/public_api/src/document.rs
index c027746..043be8e 100644
--- a/crates/public_api/src/document.rs
+++ b/crates/public_api/src/document.rs
@@ -800,14 +800,13 @@ impl TextDocument {
             inner.resource_cache.remove(name);
         }
 
-        // Slow path: linear scan, then populate cache for the match.
+        // Slow path: linear scan for the resource added last under this
+        // name, then populate cache for the match.
         let all = resource_commands::get_all_resource(&inner.ctx)?;
-        for r in &all {
-            if r.name == name {
-                inner.resource_cache.insert(name.to_string(), r.id);
-                let bytes = BASE64.decode(&r.data_base64)?;
-                return Ok(Some(bytes));
-            }
+        if let Some(r) = all.iter().filter(|r| r.name == name).max_by_key(|r| r.id) {
+            inner.resource_cache.insert(name.to_string(), r.id);
+            let bytes = BASE64.decode(&r.data_base64)?;
+            return Ok(Some(bytes));
         }
         Ok(None)
     }
@@ -821,6 +820,7 @@ impl TextDocument {
             let before = capture_block_state(&inner);
             let result = undo_redo_commands::undo(&inner.ctx, Some(inner.stack_id));
             inner.invalidate_text_cache();
+            inner.resource_cache.clear();
             result?;
             inner.rehighlight_all();
             emit_undo_redo_change_events(&mut inner, &before);
@@ -842,6 +842,7 @@ impl TextDocument {
             let before = capture_block_state(&inner);
             let result = undo_redo_commands::redo(&inner.ctx, Some(inner.stack_id));
             inner.invalidate_text_cache();
+            inner.resource_cache.clear();
             result?;
             inner.rehighlight_all();
             emit_undo_redo_change_events(&mut inner, &before);
-- 
2.43.0


From 341a0bce641537a53c2a1755b479334443824235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:17 +0000
Subject: [PATCH 27/55] fix: insert_fragment counts a block split off after the
 inserted text

---
 crates/public_api/src/cursor.rs | 39 ++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index 19b402f..632f26b 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -41,6 +41,13 @@ pub(crate) fn max_cursor_position(
     }
 }
 
+/// The maximum valid cursor position of the document as it is now.
+fn document_end(inner: &TextDocumentInner) -> usize {
+    document_inspection_commands::get_document_stats(&inner.ctx)
+        .map(|s| max_cursor_position(&s))
+        .unwrap_or(0)
+}
+
 /// A cursor into a [`TextDocument`](crate::TextDocument).
 ///
 /// Multiple cursors can coexist on the same document (like Qt's `QTextCursor`).
@@ -113,6 +120,30 @@ impl TextCursor {
         // 0 chars rather than overflowing; the cursor still moves to
         // `new_pos` below.
         let added = new_pos.saturating_sub(edit_pos);
+        self.finish_edit_sized(
+            inner,
+            edit_pos,
+            removed,
+            added,
+            new_pos,
+            blocks_affected,
+            flow_may_change,
+        )
+    }
+
+    /// Like [`finish_edit_ext`](Self::finish_edit_ext) for edits that may also
+    /// add text after the new cursor position.
+    #[allow(clippy::too_many_arguments)]
+    fn finish_edit_sized(
+        &self,
+        inner: &mut TextDocumentInner,
+        edit_pos: usize,
+        removed: usize,
+        added: usize,
+        new_pos: usize,
+        blocks_affected: usize,
+        flow_may_change: bool,
+    ) -> QueuedEvents {
         inner.adjust_cursors(edit_pos, removed, added);
         {
             let mut d = self.data.lock();
@@ -596,6 +627,7 @@ impl TextCursor {
         let queued = {
             let mut inner = self.doc.lock();
             let (pos, anchor) = self.read_cursor();
+            let end_before = document_end(&inner);
 
             let (insert_pos, removed) = if pos != anchor {
                 undo_redo_commands::begin_composite(&inner.ctx, Some(inner.stack_id));
@@ -635,12 +667,17 @@ impl TextCursor {
             }
 
             let edit_pos = pos.min(anchor);
-            self.finish_edit(
+            // A block split off after the inserted text lies beyond the new
+            // cursor position, so measure what was added on the document.
+            let added = (document_end(&inner) + removed).saturating_sub(end_before);
+            self.finish_edit_sized(
                 &mut inner,
                 edit_pos,
                 removed,
+                added,
                 to_usize(result.new_position),
                 to_usize(result.blocks_added),
+                true,
             )
         };
         crate::inner::dispatch_queued_events(queued);
-- 
2.43.0


From fc90fb9d3cdd47b15e1c406958919cfca644ae80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:50 +0000
Subject: [PATCH 28/55] fix: case-insensitive search reports positions in the
 document's own characters

---
 .../src/use_cases/search_helpers.rs           | 26 ++++++++++++++++---
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/crates/document_search/src/use_cases/search_helpers.rs b/crates/document_search/src/use_cases/search_helpers.rs
index 4828477..d8de4f3 100644
--- a/crates/document_search/src/use_cases/search_helpers.rs
+++ b/crates/document_search/src/use_cases/search_helpers.rs
@@ -117,6 +117,18 @@ pub fn find_all_matches(
             (full_text.to_lowercase(), query.to_lowercase())
         };
 
+        // Lowercasing can turn one char into several (e.g. 'İ'), so map every
+        // char of the search text back to the char of the document it is from.
+        let origin: Vec<usize> = if case_sensitive {
+            (0..full_text.chars().count()).collect()
+        } else {
+            full_text
+                .chars()
+                .enumerate()
+                .flat_map(|(i, c)| c.to_lowercase().map(move |_| i))
+                .collect()
+        };
+
         // Build a char-index → byte-offset mapping for the search text
         let char_indices: Vec<usize> = search_text.char_indices().map(|(i, _)| i).collect();
         let query_char_len = search_query.chars().count();
@@ -134,13 +146,19 @@ pub fn find_all_matches(
                 search_text.len()
             };
 
-            if search_text[byte_start..byte_end] == search_query[..] {
+            // A match covers whole chars of the document.
+            let last = char_pos + query_char_len - 1;
+            let whole_chars = (char_pos == 0 || origin[char_pos - 1] != origin[char_pos])
+                && (last + 1 == origin.len() || origin[last + 1] != origin[last]);
+            if whole_chars && search_text[byte_start..byte_end] == search_query[..] {
+                let start = origin[char_pos];
+                let end = origin[last] + 1;
                 if let Some(ref wb) = word_boundaries {
-                    if wb.contains(&char_pos) && wb.contains(&(char_pos + query_char_len)) {
-                        results.push((char_pos, query_char_len));
+                    if wb.contains(&start) && wb.contains(&end) {
+                        results.push((start, end - start));
                     }
                 } else {
-                    results.push((char_pos, query_char_len));
+                    results.push((start, end - start));
                 }
             }
             char_pos += 1;
-- 
2.43.0


From 4598cd5975bbb7ed6173dce28671f5f18e7219e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:22 +0000
Subject: [PATCH 29/55] fix: literal search matches do not overlap, so
 replace-all replaces each piece of text once

---
 .../document_search/src/use_cases/search_helpers.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/document_search/src/use_cases/search_helpers.rs b/crates/document_search/src/use_cases/search_helpers.rs
index d8de4f3..5cd338b 100644
--- a/crates/document_search/src/use_cases/search_helpers.rs
+++ b/crates/document_search/src/use_cases/search_helpers.rs
@@ -153,12 +153,15 @@ pub fn find_all_matches(
             if whole_chars && search_text[byte_start..byte_end] == search_query[..] {
                 let start = origin[char_pos];
                 let end = origin[last] + 1;
-                if let Some(ref wb) = word_boundaries {
-                    if wb.contains(&start) && wb.contains(&end) {
-                        results.push((start, end - start));
-                    }
-                } else {
+                let whole_word_ok = word_boundaries
+                    .as_ref()
+                    .is_none_or(|wb| wb.contains(&start) && wb.contains(&end));
+                if whole_word_ok {
                     results.push((start, end - start));
+                    // Like the regex search, continue after the match:
+                    // matches never overlap.
+                    char_pos += query_char_len;
+                    continue;
                 }
             }
             char_pos += 1;
-- 
2.43.0


From a543bf6dc9e408e5fd48009676ff742197523af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:54 +0000
Subject: [PATCH 30/55] fix: the cursor ends right after a formatted block
 inserted inside text

---
 crates/document_editing/src/use_cases/insert_fragment_uc.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/document_editing/src/use_cases/insert_fragment_uc.rs b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
index 41bdb18..d88c9d4 100644
--- a/crates/document_editing/src/use_cases/insert_fragment_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
@@ -2303,8 +2303,10 @@ fn execute_insert_fragment(
                 left_images.clone(),
             );
 
+            // The rope still holds the whole original block here, so count
+            // what stays in the head instead of asking for its length.
             let mut running_position =
-                current_block.document_position + block_char_length(&updated_current, &store) + 1;
+                current_block.document_position + text_before_chars + left_image_count + 1;
 
             let list_id = if let Some(ref frag_list) = frag_block.list {
                 let list = frag_list.to_entity();
-- 
2.43.0


From dab600ee61a47784c8b4eb587ce4a7e921d6f1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:22 +0000
Subject: [PATCH 31/55] fix: a composite whose undo or redo fails half-way is
 put back so it can be retried

---
 crates/common/src/undo_redo.rs | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/crates/common/src/undo_redo.rs b/crates/common/src/undo_redo.rs
index b845a32..52367b9 100644
--- a/crates/common/src/undo_redo.rs
+++ b/crates/common/src/undo_redo.rs
@@ -126,17 +126,33 @@ impl CompositeCommand {
 
 impl UndoRedoCommand for CompositeCommand {
     fn undo(&mut self) -> Result<()> {
-        // Undo commands in reverse order
-        for command in self.commands.iter_mut().rev() {
-            command.undo()?;
+        // Undo commands in reverse order. If one fails, redo those already
+        // undone, so that the composite can be retried as a whole.
+        for i in (0..self.commands.len()).rev() {
+            if let Err(e) = self.commands[i].undo() {
+                for command in self.commands[i + 1..].iter_mut() {
+                    if let Err(e) = command.redo() {
+                        log::error!("Redo of a partly undone composite failed: {e}");
+                    }
+                }
+                return Err(e);
+            }
         }
         Ok(())
     }
 
     fn redo(&mut self) -> Result<()> {
-        // Redo commands in original order
-        for command in self.commands.iter_mut() {
-            command.redo()?;
+        // Redo commands in original order. If one fails, undo those already
+        // redone, so that the composite can be retried as a whole.
+        for i in 0..self.commands.len() {
+            if let Err(e) = self.commands[i].redo() {
+                for command in self.commands[..i].iter_mut().rev() {
+                    if let Err(e) = command.undo() {
+                        log::error!("Undo of a partly redone composite failed: {e}");
+                    }
+                }
+                return Err(e);
+            }
         }
         Ok(())
     }
-- 
2.43.0


From 711bc41131bdd9e5acbfbdd24a5a52c71b6ddc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:22 +0000
Subject: [PATCH 32/55] fix: a composite can only be opened on an existing
 stack, nested only on the same one, and keeps its stack alive

---
 crates/common/src/undo_redo.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/crates/common/src/undo_redo.rs b/crates/common/src/undo_redo.rs
index 52367b9..e6e6056 100644
--- a/crates/common/src/undo_redo.rs
+++ b/crates/common/src/undo_redo.rs
@@ -329,7 +329,15 @@ impl UndoRedoManager {
     /// // Now undo() will undo both commands as a single unit
     /// ```
     pub fn begin_composite(&mut self, stack_id: Option<u64>) -> Result<()> {
-        if self.composite_stack_id.is_some() && self.composite_stack_id != stack_id {
+        let target_stack_id = stack_id.unwrap_or(0);
+        if !self.stacks.contains_key(&target_stack_id) {
+            return Err(anyhow!("Stack with ID {} does not exist", target_stack_id));
+        }
+        if self
+            .in_progress_composite
+            .as_ref()
+            .is_some_and(|c| c.stack_id != target_stack_id)
+        {
             return Err(anyhow!(
                 "Cannot begin a composite on a different stack while another composite is in progress"
             ));
@@ -535,6 +543,15 @@ impl UndoRedoManager {
         if stack_id == 0 {
             return Err(anyhow!("Cannot delete the default stack"));
         }
+        if self
+            .in_progress_composite
+            .as_ref()
+            .is_some_and(|c| c.stack_id == stack_id)
+        {
+            return Err(anyhow!(
+                "Cannot delete a stack while a composite is in progress on it"
+            ));
+        }
         if self.stacks.remove(&stack_id).is_some() {
             Ok(())
         } else {
-- 
2.43.0


From 5fdf46934150d3c6dabfed443d6934dc702689b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:44 +0000
Subject: [PATCH 33/55] fix: an image occupies exactly its object-replacement
 character in its block

---
 crates/common/src/format_runs.rs              | 143 ++++++------
 .../src/use_cases/delete_text_uc.rs           |   5 +-
 .../src/use_cases/editing_helpers.rs          |  33 ---
 .../src/use_cases/insert_block_uc.rs          |   5 +-
 .../src/use_cases/insert_formatted_text_uc.rs |   9 +-
 .../src/use_cases/insert_fragment_uc.rs       |  47 ++--
 .../use_cases/insert_html_at_position_uc.rs   |  12 +-
 .../src/use_cases/insert_image_uc.rs          |  61 ++---
 .../insert_markdown_at_position_uc.rs         |  10 +-
 .../src/use_cases/insert_text_uc.rs           |   8 +-
 crates/public_api/src/text_block.rs           | 221 +++---------------
 11 files changed, 188 insertions(+), 366 deletions(-)

diff --git a/crates/common/src/format_runs.rs b/crates/common/src/format_runs.rs
index e5ca6dd..73ab0f2 100644
--- a/crates/common/src/format_runs.rs
+++ b/crates/common/src/format_runs.rs
@@ -407,7 +407,8 @@ pub fn shift_images_for_delete(
 /// document-space char position to the byte position where text edits
 /// should land in `block.plain_text`.
 ///
-/// Images contribute 1 logical character but 0 bytes in `plain_text`.
+/// An image contributes 1 logical character: its U+FFFC sentinel when
+/// `plain_text` has one at the anchor, 0 bytes otherwise.
 /// Images at the same byte_offset are visited in their stored order.
 pub fn logical_offset_to_byte(plain_text: &str, images: &[ImageAnchor], char_offset: i64) -> u32 {
     if char_offset <= 0 {
@@ -417,6 +418,11 @@ pub fn logical_offset_to_byte(plain_text: &str, images: &[ImageAnchor], char_off
     let mut images_consumed = 0usize;
     for (b, _) in plain_text.char_indices() {
         while images_consumed < images.len() && images[images_consumed].byte_offset <= b as u32 {
+            if image_sentinel_len(plain_text, images, images_consumed) > 0 {
+                // Counted as the sentinel character itself.
+                images_consumed += 1;
+                continue;
+            }
             if logical == char_offset {
                 return b as u32;
             }
@@ -439,6 +445,29 @@ pub fn logical_offset_to_byte(plain_text: &str, images: &[ImageAnchor], char_off
     plain_len
 }
 
+/// Bytes image `idx` occupies in `plain_text`: those of the U+FFFC
+/// sentinel at its anchor, or 0 when the text holds none for it (of
+/// several images at one byte offset, the last one owns the sentinel).
+pub fn image_sentinel_len(plain_text: &str, images: &[ImageAnchor], idx: usize) -> u32 {
+    const SENTINEL: char = '\u{FFFC}';
+    let at = images[idx].byte_offset;
+    let owns = images.get(idx + 1).is_none_or(|n| n.byte_offset != at);
+    let here = plain_text.get(at as usize..);
+    if owns && here.is_some_and(|t| t.starts_with(SENTINEL)) {
+        SENTINEL.len_utf8() as u32
+    } else {
+        0
+    }
+}
+
+/// Number of logical characters `images` add to those of `plain_text`:
+/// one per image that has no sentinel there.
+pub fn extra_image_chars(plain_text: &str, images: &[ImageAnchor]) -> i64 {
+    (0..images.len())
+        .filter(|&idx| image_sentinel_len(plain_text, images, idx) == 0)
+        .count() as i64
+}
+
 /// Split a block's format runs at `byte_offset`. The returned right-hand
 /// vector has its run offsets re-based so they start at byte 0 of the
 /// new (right) block. Straddling runs are split with their `format`
@@ -554,25 +583,28 @@ pub fn inline_segments_view(
     let mut out: Vec<InlineSegment> = Vec::new();
     let bytes = plain_text.as_bytes();
 
-    let mut img_iter = images.iter().peekable();
+    let mut next_image = 0usize;
     let mut cursor: u32 = 0;
 
-    let emit_text =
-        |out: &mut Vec<InlineSegment>, bytes: &[u8], start: u32, end: u32, fmt: CharacterFormat| {
-            if start >= end {
-                return;
-            }
-            let slice = &bytes[start as usize..end as usize];
-            let s = std::str::from_utf8(slice)
-                .expect("block plain_text must be valid UTF-8")
-                .to_string();
-            let mut seg = InlineSegment {
-                content: InlineContent::Text(s),
-                ..Default::default()
-            };
-            apply_character_format_to_segment(&mut seg, &fmt);
-            out.push(seg);
+    let emit_text = |out: &mut Vec<InlineSegment>,
+                     bytes: &[u8],
+                     start: u32,
+                     end: u32,
+                     fmt: &CharacterFormat| {
+        if start >= end {
+            return;
+        }
+        let slice = &bytes[start as usize..end as usize];
+        let s = std::str::from_utf8(slice)
+            .expect("block plain_text must be valid UTF-8")
+            .to_string();
+        let mut seg = InlineSegment {
+            content: InlineContent::Text(s),
+            ..Default::default()
         };
+        apply_character_format_to_segment(&mut seg, fmt);
+        out.push(seg);
+    };
 
     let emit_image = |out: &mut Vec<InlineSegment>, anchor: &ImageAnchor| {
         let mut seg = InlineSegment {
@@ -588,66 +620,31 @@ pub fn inline_segments_view(
         out.push(seg);
     };
 
-    for run in runs {
-        while let Some(img) = img_iter.peek() {
-            if img.byte_offset < run.byte_start {
-                emit_text(
-                    &mut out,
-                    bytes,
-                    cursor,
-                    img.byte_offset,
-                    CharacterFormat::default(),
-                );
-                emit_image(&mut out, img);
-                cursor = img.byte_offset;
-                img_iter.next();
-            } else {
-                break;
-            }
-        }
-
-        if cursor < run.byte_start {
-            emit_text(
-                &mut out,
-                bytes,
-                cursor,
-                run.byte_start,
-                CharacterFormat::default(),
-            );
+    // Emit `[cursor..end)` in one format, cut at the images inside it; an
+    // image stands in for its sentinel character.
+    let mut emit_span = |out: &mut Vec<InlineSegment>, end: u32, fmt: &CharacterFormat| {
+        while let Some(img) = images.get(next_image)
+            && img.byte_offset < end
+        {
+            emit_text(out, bytes, cursor, img.byte_offset, fmt);
+            emit_image(out, img);
+            cursor = std::cmp::max(cursor, img.byte_offset)
+                + image_sentinel_len(plain_text, images, next_image);
+            next_image += 1;
         }
+        emit_text(out, bytes, cursor, end, fmt);
+        cursor = std::cmp::max(cursor, end);
+    };
 
-        emit_text(
-            &mut out,
-            bytes,
-            run.byte_start,
-            run.byte_end,
-            run.format.clone(),
-        );
-        cursor = run.byte_end;
-    }
-
-    for img in img_iter {
-        if img.byte_offset > cursor {
-            emit_text(
-                &mut out,
-                bytes,
-                cursor,
-                img.byte_offset,
-                CharacterFormat::default(),
-            );
-            cursor = img.byte_offset;
-        }
-        emit_image(&mut out, img);
+    let plain = CharacterFormat::default();
+    for run in runs {
+        emit_span(&mut out, run.byte_start, &plain);
+        emit_span(&mut out, run.byte_end, &run.format);
     }
+    emit_span(&mut out, bytes.len() as u32, &plain);
 
-    if (cursor as usize) < bytes.len() {
-        emit_text(
-            &mut out,
-            bytes,
-            cursor,
-            bytes.len() as u32,
-            CharacterFormat::default(),
-        );
+    for img in &images[next_image..] {
+        emit_image(&mut out, img);
     }
 
     out
diff --git a/crates/document_editing/src/use_cases/delete_text_uc.rs b/crates/document_editing/src/use_cases/delete_text_uc.rs
index 66e9275..5b1a917 100644
--- a/crates/document_editing/src/use_cases/delete_text_uc.rs
+++ b/crates/document_editing/src/use_cases/delete_text_uc.rs
@@ -12,7 +12,7 @@ use common::direct_access::root::root_repository::RootRelationshipField;
 use common::direct_access::table::TableRelationshipField;
 use common::entities::{Block, Document, Frame, Root, Table, TableCell};
 use common::format_runs::{
-    FormatRun, ImageAnchor, debug_assert_well_formed, logical_offset_to_byte,
+    FormatRun, ImageAnchor, debug_assert_well_formed, extra_image_chars, logical_offset_to_byte,
     shift_images_for_delete, shift_runs_for_delete,
 };
 use common::snapshot::EntityTreeSnapshot;
@@ -907,7 +907,8 @@ fn delete_char_range_in_block(
     let images_removed = {
         let mut images_map = store.block_images.write().unwrap();
         let images = images_map.entry(block.id).or_default();
-        shift_images_for_delete(images, byte_start, byte_end) as i64
+        shift_images_for_delete(images, byte_start, byte_end);
+        extra_image_chars(&block_text, &images_before) - extra_image_chars(&new_plain, images)
     };
 
     // Mirror the delete into the global rope.
diff --git a/crates/document_editing/src/use_cases/editing_helpers.rs b/crates/document_editing/src/use_cases/editing_helpers.rs
index 85b5671..60b9dc6 100644
--- a/crates/document_editing/src/use_cases/editing_helpers.rs
+++ b/crates/document_editing/src/use_cases/editing_helpers.rs
@@ -3,7 +3,6 @@ use common::database::Store;
 use common::database::rope_helpers::{block_char_length, find_block_at_char_position};
 use common::direct_access::frame::frame_repository::FrameRelationshipField;
 use common::entities::{Block, Frame};
-use common::format_runs::{InlineContent, InlineSegment};
 use common::types::EntityId;
 
 /// Trait for UoW operations needed to create a cell frame. All
@@ -204,38 +203,6 @@ pub fn find_block_at_position(
     Err(anyhow!("No blocks found in document"))
 }
 
-/// Find the inline segment at a given character offset within a block,
-/// and compute the offset within that segment.
-///
-/// Returns `(segment, index_in_list, offset_within_segment)`.
-pub fn find_segment_at_offset(
-    segments: &[InlineSegment],
-    offset: i64,
-) -> Result<(InlineSegment, usize, i64)> {
-    let mut running = 0i64;
-    for (i, seg) in segments.iter().enumerate() {
-        let seg_len = match &seg.content {
-            InlineContent::Text(s) => s.chars().count() as i64,
-            InlineContent::Image { .. } => 1,
-            InlineContent::Empty => 0,
-        };
-        if offset <= running + seg_len {
-            return Ok((seg.clone(), i, offset - running));
-        }
-        running += seg_len;
-    }
-    // Fall back to last segment at its end
-    if let Some(seg) = segments.last() {
-        let seg_len = match &seg.content {
-            InlineContent::Text(s) => s.chars().count() as i64,
-            InlineContent::Image { .. } => 1,
-            InlineContent::Empty => 0,
-        };
-        return Ok((seg.clone(), segments.len() - 1, seg_len));
-    }
-    Err(anyhow!("No inline segments found in block"))
-}
-
 /// Collect all block IDs in document order by traversing child_order recursively.
 ///
 /// Negative entries in child_order are nested frame IDs (convention: -frame_id);
diff --git a/crates/document_editing/src/use_cases/insert_block_uc.rs b/crates/document_editing/src/use_cases/insert_block_uc.rs
index 9764dc0..6a285cd 100644
--- a/crates/document_editing/src/use_cases/insert_block_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_block_uc.rs
@@ -10,7 +10,8 @@ use common::direct_access::root::root_repository::RootRelationshipField;
 use common::direct_access::table::TableRelationshipField;
 use common::entities::{Block, Document, Frame, Root, TableCell};
 use common::format_runs::{
-    debug_assert_well_formed, logical_offset_to_byte, split_images_at, split_runs_at,
+    debug_assert_well_formed, extra_image_chars, logical_offset_to_byte, split_images_at,
+    split_runs_at,
 };
 
 use common::snapshot::EntityTreeSnapshot;
@@ -124,7 +125,7 @@ fn execute_insert_block(
     let (left_runs, right_runs) = split_runs_at(&current_runs, byte_split);
     let (left_images, right_images) = split_images_at(&current_images, byte_split);
 
-    let left_image_count = left_images.len() as i64;
+    let left_image_count = extra_image_chars(&text_before, &left_images);
 
     let now = chrono::Utc::now();
 
diff --git a/crates/document_editing/src/use_cases/insert_formatted_text_uc.rs b/crates/document_editing/src/use_cases/insert_formatted_text_uc.rs
index 0821eff..0fa6c0f 100644
--- a/crates/document_editing/src/use_cases/insert_formatted_text_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_formatted_text_uc.rs
@@ -11,9 +11,9 @@ use common::direct_access::root::root_repository::RootRelationshipField;
 use common::direct_access::table::TableRelationshipField;
 use common::entities::{Block, Document, Frame, Root, TableCell};
 use common::format_runs::{
-    CharacterFormat, FormatRun, ImageAnchor, debug_assert_well_formed, logical_offset_to_byte,
-    shift_images_for_delete, shift_images_for_insert, shift_runs_for_delete, shift_runs_for_insert,
-    splice_range,
+    CharacterFormat, FormatRun, ImageAnchor, debug_assert_well_formed, extra_image_chars,
+    logical_offset_to_byte, shift_images_for_delete, shift_images_for_insert,
+    shift_runs_for_delete, shift_runs_for_insert, splice_range,
 };
 
 use common::types::{EntityId, ROOT_ENTITY_ID};
@@ -131,7 +131,8 @@ fn delete_range_in_block(
     let images_removed = {
         let mut images_map = store.block_images.write().unwrap();
         let images = images_map.entry(block.id).or_default();
-        shift_images_for_delete(images, byte_start, byte_end) as i64
+        shift_images_for_delete(images, byte_start, byte_end);
+        extra_image_chars(&block_text, &images_before) - extra_image_chars(&new_plain, images)
     };
 
     rope_delete_in_block(&store, block.id, byte_start, byte_end);
diff --git a/crates/document_editing/src/use_cases/insert_fragment_uc.rs b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
index d88c9d4..36a58f3 100644
--- a/crates/document_editing/src/use_cases/insert_fragment_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
@@ -18,7 +18,7 @@ use common::direct_access::table::TableRelationshipField;
 use common::entities::{Block, Document, Frame, List, Root, Table, TableCell};
 use common::format_runs::{
     FormatRun, ImageAnchor, InlineSegment, character_format_from_segment, coalesce_in_place,
-    logical_offset_to_byte, split_images_at, split_runs_at,
+    extra_image_chars, logical_offset_to_byte, split_images_at, split_runs_at,
 };
 
 use common::parser_tools::fragment_schema::{FragmentBlock, FragmentData, FragmentTable};
@@ -125,6 +125,14 @@ fn frag_block_state(fb: &FragmentBlock) -> (Vec<FormatRun>, Vec<ImageAnchor>) {
                     quality: *quality,
                     format: fmt,
                 });
+                // The image's sentinel character, when the text carries it.
+                if fb
+                    .plain_text
+                    .get(byte_offset as usize..)
+                    .is_some_and(|t| t.starts_with('\u{FFFC}'))
+                {
+                    byte_offset += '\u{FFFC}'.len_utf8() as u32;
+                }
             }
         }
     }
@@ -502,7 +510,7 @@ fn insert_table_fragment(
                 let first_frag = &frag_cell.blocks[0];
                 let (runs, images) = frag_block_state(first_frag);
                 let first_chars = first_frag.plain_text.chars().count() as i64;
-                let first_len = first_chars + images.len() as i64;
+                let first_len = first_chars + extra_image_chars(&first_frag.plain_text, &images);
 
                 let mut updated_block = created_block.clone();
                 updated_block.document_position = current_pos;
@@ -518,7 +526,8 @@ fn insert_table_fragment(
                 for extra_frag in &frag_cell.blocks[1..] {
                     let (xruns, ximages) = frag_block_state(extra_frag);
                     let extra_chars = extra_frag.plain_text.chars().count() as i64;
-                    let extra_len = extra_chars + ximages.len() as i64;
+                    let extra_len =
+                        extra_chars + extra_image_chars(&extra_frag.plain_text, &ximages);
                     let extra_block = Block {
                         id: 0,
                         created_at: now,
@@ -870,8 +879,8 @@ fn insert_mixed_fragment(
 
     let (left_runs, right_runs) = split_runs_at(&current_runs, byte_offset);
     let (left_images, right_images) = split_images_at(&current_images, byte_offset);
-    let left_image_count = left_images.len() as i64;
-    let right_image_count = right_images.len() as i64;
+    let left_image_count = extra_image_chars(&text_before, &left_images);
+    let right_image_count = extra_image_chars(&text_after, &right_images);
 
     // Pre-mutation char length of the current block (later position math
     // can't rely on `block_char_length(&current_block, &store)` because by
@@ -1046,7 +1055,8 @@ fn insert_mixed_fragment(
 
                 let (runs, images) = frag_block_state(frag_block);
                 let block_chars = frag_block.plain_text.chars().count() as i64;
-                let block_text_len = block_chars + images.len() as i64;
+                let block_text_len =
+                    block_chars + extra_image_chars(&frag_block.plain_text, &images);
 
                 let list_id = if let Some(ref frag_list) = frag_block.list {
                     if let Some(existing_id) =
@@ -1151,7 +1161,7 @@ fn insert_mixed_fragment(
                         let first_cb = &frag_cell.blocks[0];
                         let (runs, images) = frag_block_state(first_cb);
                         let cb_chars = first_cb.plain_text.chars().count() as i64;
-                        let cb_len = cb_chars + images.len() as i64;
+                        let cb_len = cb_chars + extra_image_chars(&first_cb.plain_text, &images);
 
                         let mut updated_block = created_block.clone();
                         updated_block.document_position = running_position;
@@ -1167,7 +1177,8 @@ fn insert_mixed_fragment(
                         for extra_frag in &frag_cell.blocks[1..] {
                             let (xruns, ximages) = frag_block_state(extra_frag);
                             let extra_chars = extra_frag.plain_text.chars().count() as i64;
-                            let extra_len = extra_chars + ximages.len() as i64;
+                            let extra_len =
+                                extra_chars + extra_image_chars(&extra_frag.plain_text, &ximages);
                             let extra_block = Block {
                                 id: 0,
                                 created_at: now,
@@ -1330,7 +1341,7 @@ fn insert_mixed_fragment(
     let (tail_plain, tail_runs, tail_images) =
         build_tail_state(&text_after, &right_runs, &right_images, last_frag);
     let tail_chars = tail_plain.chars().count() as i64;
-    let tail_image_count = tail_images.len() as i64;
+    let tail_image_count = extra_image_chars(&tail_plain, &tail_images);
     let tail_text_length = tail_chars + tail_image_count;
 
     let skip_tail_block = tail_plain.is_empty() && last_frag.is_none() && right_image_count == 0;
@@ -1619,8 +1630,8 @@ fn execute_insert_fragment(
 
     let current_block_text =
         common::database::rope_helpers::block_content_via_store(&current_block, &store);
-    let original_current_char_length =
-        current_block_text.chars().count() as i64 + current_images.len() as i64;
+    let original_current_char_length = current_block_text.chars().count() as i64
+        + extra_image_chars(&current_block_text, &current_images);
     let byte_offset = logical_offset_to_byte(&current_block_text, &current_images, offset);
     let now = chrono::Utc::now();
 
@@ -1630,7 +1641,7 @@ fn execute_insert_fragment(
         let inserted_plain = &frag_block.plain_text;
         let (frag_runs, frag_images) = frag_block_state(frag_block);
         let inserted_chars = inserted_plain.chars().count() as i64;
-        let inserted_len = inserted_chars + frag_images.len() as i64;
+        let inserted_len = inserted_chars + extra_image_chars(inserted_plain, &frag_images);
 
         if inserted_len == 0 {
             return Ok((
@@ -1720,8 +1731,8 @@ fn execute_insert_fragment(
 
     let (left_runs, right_runs) = split_runs_at(&current_runs, byte_offset);
     let (left_images, right_images) = split_images_at(&current_images, byte_offset);
-    let left_image_count = left_images.len() as i64;
-    let right_image_count = right_images.len() as i64;
+    let left_image_count = extra_image_chars(&text_before, &left_images);
+    let right_image_count = extra_image_chars(&text_after, &right_images);
 
     if fragment_data.blocks.len() >= 2 {
         let first_frag = &fragment_data.blocks[0];
@@ -1811,7 +1822,7 @@ fn execute_insert_fragment(
         // cases that just got `head_plain` queued). Use the new char
         // length implied by `head_plain` + `head_images` directly.
         let updated_current_char_length =
-            head_plain.chars().count() as i64 + head_images.len() as i64;
+            head_plain.chars().count() as i64 + extra_image_chars(&head_plain, &head_images);
         write_block_state(uow, current_block.id, head_runs, head_images);
 
         let mut new_block_ids: Vec<EntityId> = Vec::new();
@@ -1838,7 +1849,7 @@ fn execute_insert_fragment(
         for frag_block in &fragment_data.blocks[middle_start..middle_end] {
             let (runs, images) = frag_block_state(frag_block);
             let block_chars = frag_block.plain_text.chars().count() as i64;
-            let block_text_len = block_chars + images.len() as i64;
+            let block_text_len = block_chars + extra_image_chars(&frag_block.plain_text, &images);
 
             let list_id = if let Some(ref frag_list) = frag_block.list {
                 if let Some(existing_id) =
@@ -1906,7 +1917,7 @@ fn execute_insert_fragment(
         }
 
         let tail_chars = tail_plain.chars().count() as i64;
-        let tail_image_count = tail_images.len() as i64;
+        let tail_image_count = extra_image_chars(&tail_plain, &tail_images);
         let tail_text_length = tail_chars + tail_image_count;
         let skip_tail = tail_plain.is_empty() && !merge_last && right_image_count == 0;
 
@@ -2136,7 +2147,7 @@ fn execute_insert_fragment(
         let frag_block = &fragment_data.blocks[0];
         let (block_runs, block_images) = frag_block_state(frag_block);
         let block_chars = frag_block.plain_text.chars().count() as i64;
-        let block_text_len = block_chars + block_images.len() as i64;
+        let block_text_len = block_chars + extra_image_chars(&frag_block.plain_text, &block_images);
 
         let overwrite_head = text_before.is_empty();
 
diff --git a/crates/document_editing/src/use_cases/insert_html_at_position_uc.rs b/crates/document_editing/src/use_cases/insert_html_at_position_uc.rs
index ec4c598..404a9ec 100644
--- a/crates/document_editing/src/use_cases/insert_html_at_position_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_html_at_position_uc.rs
@@ -12,8 +12,8 @@ use common::direct_access::frame::frame_repository::FrameRelationshipField;
 use common::direct_access::root::root_repository::RootRelationshipField;
 use common::entities::{Block, Document, Frame, List, Root};
 use common::format_runs::{
-    FormatRun, coalesce_in_place, logical_offset_to_byte, shift_images_for_insert,
-    shift_runs_for_insert, splice_range, split_images_at, split_runs_at,
+    FormatRun, coalesce_in_place, extra_image_chars, logical_offset_to_byte,
+    shift_images_for_insert, shift_runs_for_insert, splice_range, split_images_at, split_runs_at,
 };
 
 use common::parser_tools::content_parser::{self, ParsedBlock, format_runs_from_spans};
@@ -150,8 +150,8 @@ fn execute_content_insert(
     // re-read it from a rope that has since been overwritten by the
     // head update — `original_current_char_length` would
     // return the post-mutation length, not the original.
-    let original_current_char_length =
-        current_block_text.chars().count() as i64 + current_images.len() as i64;
+    let original_current_char_length = current_block_text.chars().count() as i64
+        + extra_image_chars(&current_block_text, &current_images);
     let byte_offset = logical_offset_to_byte(&current_block_text, &current_images, offset);
     let now = chrono::Utc::now();
 
@@ -226,8 +226,8 @@ fn execute_content_insert(
 
     let (left_runs, right_runs) = split_runs_at(&current_runs, byte_offset);
     let (left_images, right_images) = split_images_at(&current_images, byte_offset);
-    let left_image_count = left_images.len() as i64;
-    let right_image_count = right_images.len() as i64;
+    let left_image_count = extra_image_chars(&text_before, &left_images);
+    let right_image_count = extra_image_chars(&text_after, &right_images);
 
     if parsed_blocks.len() >= 2 {
         // ── Multi-block ──
diff --git a/crates/document_editing/src/use_cases/insert_image_uc.rs b/crates/document_editing/src/use_cases/insert_image_uc.rs
index 9568420..4b5572a 100644
--- a/crates/document_editing/src/use_cases/insert_image_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_image_uc.rs
@@ -1,4 +1,4 @@
-use super::editing_helpers::{find_block_at_position, find_segment_at_offset};
+use super::editing_helpers::find_block_at_position;
 use crate::InsertImageDto;
 use crate::InsertImageResultDto;
 use anyhow::{Result, anyhow};
@@ -8,13 +8,19 @@ use common::direct_access::document::document_repository::DocumentRelationshipFi
 use common::direct_access::frame::frame_repository::FrameRelationshipField;
 use common::direct_access::root::root_repository::RootRelationshipField;
 use common::entities::{Block, Document, Frame, Root};
-use common::format_runs::{ImageAnchor, InlineContent, synth_element_id};
-use common::format_runs_query::inline_segments_for_block;
+use common::format_runs::{
+    ImageAnchor, logical_offset_to_byte, shift_images_for_insert, shift_runs_for_insert,
+    synth_element_id,
+};
+use common::format_runs_query::get_block_images;
 use common::snapshot::EntityTreeSnapshot;
 use common::types::{EntityId, ROOT_ENTITY_ID};
 use common::undo_redo::UndoRedoCommand;
 use std::any::Any;
 
+/// The character an image occupies in its block's text.
+const SENTINEL: &str = "\u{FFFC}";
+
 pub trait InsertImageUnitOfWorkFactoryTrait: Send + Sync {
     fn create(&self) -> Box<dyn InsertImageUnitOfWorkTrait>;
 }
@@ -94,48 +100,31 @@ fn execute_insert_image(
     // Find block at position
     let (block, block_idx, offset) = find_block_at_position(&blocks, position, &uow.store())?;
 
-    // Synthesize the inline-segment view of the target block from format_runs +
-    // block_images. This is read-only — we use it to locate the byte offset
-    // inside the block's content where the new image should be anchored.
+    // Byte offset inside the block's text where the new image is anchored.
     let block_text = block_content_via_store(&block, &uow.store());
-    let segments = inline_segments_for_block(&uow.store(), block.id, &block_text);
-
-    // byte_offset = position inside `block.plain_text` where the new image is
-    // anchored. Empty blocks anchor at 0. Otherwise we walk the synthesized
-    // segments: each Text contributes its UTF-8 byte length; Image / Empty
-    // contribute zero.
-    let byte_offset: u32 = if segments.is_empty() {
-        0
-    } else {
-        let (segment, seg_idx, seg_offset) = find_segment_at_offset(&segments, offset)?;
-        let mut bo: u32 = 0;
-        for prev in &segments[..seg_idx] {
-            if let InlineContent::Text(s) = &prev.content {
-                bo += s.len() as u32;
-            }
-        }
-        match &segment.content {
-            InlineContent::Text(s) => {
-                let split_byte = s
-                    .char_indices()
-                    .nth(seg_offset as usize)
-                    .map(|(b, _)| b)
-                    .unwrap_or(s.len());
-                bo + split_byte as u32
-            }
-            InlineContent::Image { .. } | InlineContent::Empty => bo,
-        }
+    let byte_offset = {
+        let images = get_block_images(&uow.store(), block.id);
+        logical_offset_to_byte(&block_text, &images, offset)
     };
 
     let now = chrono::Utc::now();
 
+    // The image's sentinel moves the runs and images after it.
+    {
+        let store = uow.store();
+        let mut runs_map = store.format_runs.write().unwrap();
+        if let Some(runs) = runs_map.get_mut(&block.id) {
+            shift_runs_for_insert(runs, byte_offset, SENTINEL.len() as u32);
+        }
+    }
+
     // Insert ImageAnchor directly into block_images, maintaining sort order
-    // (ascending by byte_offset; equal byte_offsets keep insertion order, so
-    // the new image goes AFTER any existing anchors at the same byte position).
+    // (ascending by byte_offset).
     {
         let store = uow.store();
         let mut images_map = store.block_images.write().unwrap();
         let images = images_map.entry(block.id).or_default();
+        shift_images_for_insert(images, byte_offset, SENTINEL.len() as u32);
         let insert_idx = images
             .iter()
             .position(|a| a.byte_offset > byte_offset)
@@ -156,7 +145,7 @@ fn execute_insert_image(
     // Mirror to the global rope: insert U+FFFC OBJECT REPLACEMENT
     // CHARACTER at the same byte offset per plan §1.6. The sentinel is
     // 3 UTF-8 bytes but contributes 1 logical position.
-    rope_insert_in_block(&uow.store(), block.id, byte_offset, "\u{FFFC}");
+    rope_insert_in_block(&uow.store(), block.id, byte_offset, SENTINEL);
 
     let mut updated_block = block.clone();
     updated_block.updated_at = now;
diff --git a/crates/document_editing/src/use_cases/insert_markdown_at_position_uc.rs b/crates/document_editing/src/use_cases/insert_markdown_at_position_uc.rs
index 7590d02..f1a17da 100644
--- a/crates/document_editing/src/use_cases/insert_markdown_at_position_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_markdown_at_position_uc.rs
@@ -12,8 +12,8 @@ use common::direct_access::frame::frame_repository::FrameRelationshipField;
 use common::direct_access::root::root_repository::RootRelationshipField;
 use common::entities::{Block, Document, Frame, List, Root};
 use common::format_runs::{
-    FormatRun, coalesce_in_place, logical_offset_to_byte, shift_images_for_insert,
-    shift_runs_for_insert, splice_range, split_images_at, split_runs_at,
+    FormatRun, coalesce_in_place, extra_image_chars, logical_offset_to_byte,
+    shift_images_for_insert, shift_runs_for_insert, splice_range, split_images_at, split_runs_at,
 };
 
 use common::parser_tools::content_parser::{self, ParsedBlock, format_runs_from_spans};
@@ -148,8 +148,8 @@ fn execute_content_insert(
     };
 
     let current_block_text = block_content_via_store(&current_block, &store);
-    let original_current_char_length =
-        current_block_text.chars().count() as i64 + current_images.len() as i64;
+    let original_current_char_length = current_block_text.chars().count() as i64
+        + extra_image_chars(&current_block_text, &current_images);
     let byte_offset = logical_offset_to_byte(&current_block_text, &current_images, offset);
 
     let now = chrono::Utc::now();
@@ -233,7 +233,7 @@ fn execute_content_insert(
 
     let (left_runs, right_runs) = split_runs_at(&current_runs, byte_offset);
     let (left_images, right_images) = split_images_at(&current_images, byte_offset);
-    let _left_image_count = left_images.len() as i64;
+    let _left_image_count = extra_image_chars(&text_before, &left_images);
 
     if parsed_blocks.len() >= 2 {
         // ── Multi-block: merge inline-only first/last, standalone otherwise ──
diff --git a/crates/document_editing/src/use_cases/insert_text_uc.rs b/crates/document_editing/src/use_cases/insert_text_uc.rs
index 3795f36..3f2cdfb 100644
--- a/crates/document_editing/src/use_cases/insert_text_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_text_uc.rs
@@ -13,7 +13,7 @@ use common::direct_access::root::root_repository::RootRelationshipField;
 use common::direct_access::table::TableRelationshipField;
 use common::entities::{Block, Document, Frame, Root, TableCell};
 use common::format_runs::{
-    FormatRun, ImageAnchor, debug_assert_well_formed, logical_offset_to_byte,
+    FormatRun, ImageAnchor, debug_assert_well_formed, extra_image_chars, logical_offset_to_byte,
     shift_images_for_delete, shift_images_for_insert, shift_runs_for_delete, shift_runs_for_insert,
 };
 
@@ -108,11 +108,13 @@ fn delete_range_in_block(
         debug_assert_well_formed(runs, new_plain.len());
     }
 
-    // Mutate block_images and capture how many were removed.
+    // Mutate block_images and capture how many positions go with them
+    // beyond those of the removed text.
     let images_removed = {
         let mut images_map = store.block_images.write().unwrap();
         let images = images_map.entry(block.id).or_default();
-        shift_images_for_delete(images, byte_start, byte_end) as i64
+        shift_images_for_delete(images, byte_start, byte_end);
+        extra_image_chars(&block_text, &images_before) - extra_image_chars(&new_plain, images)
     };
 
     rope_delete_in_block(&store, block.id, byte_start, byte_end);
diff --git a/crates/public_api/src/text_block.rs b/crates/public_api/src/text_block.rs
index cb0624d..0a27122 100644
--- a/crates/public_api/src/text_block.rs
+++ b/crates/public_api/src/text_block.rs
@@ -5,7 +5,10 @@ use std::sync::Arc;
 use parking_lot::Mutex;
 
 use frontend::commands::{block_commands, frame_commands, list_commands};
-use frontend::common::format_runs::{FormatRun, ImageAnchor, synth_element_id};
+use frontend::common::format_runs::{
+    FormatRun, ImageAnchor, InlineContent, character_format_from_segment, image_sentinel_len,
+    inline_segments_view, synth_element_id,
+};
 use frontend::common::types::EntityId;
 
 use crate::convert::to_usize;
@@ -530,199 +533,49 @@ fn build_raw_fragments(
     let mut fragments = Vec::with_capacity(runs.len() + images.len() + 1);
     let mut char_offset: usize = 0;
     let mut byte_cursor: u32 = 0;
-    let mut img_iter = images.iter().peekable();
-
-    // Helper to push an unformatted text fragment for bytes [a..b).
-    // Returns the new char_offset and updates byte_cursor.
-    fn emit_default_text(
-        fragments: &mut Vec<FragmentContent>,
-        plain: &str,
-        block_id: u64,
-        byte_a: u32,
-        byte_b: u32,
-        char_offset: &mut usize,
-        byte_cursor: &mut u32,
-    ) {
-        if byte_a >= byte_b {
-            return;
-        }
-        let text = &plain[byte_a as usize..byte_b as usize];
-        let length = text.chars().count();
-        let word_starts = compute_word_starts(text);
-        fragments.push(FragmentContent::Text {
-            text: text.to_string(),
-            format: TextFormat::default(),
-            offset: *char_offset,
-            length,
-            element_id: synth_element_id(block_id, byte_a),
-            word_starts,
-        });
-        *char_offset += length;
-        *byte_cursor = byte_b;
-    }
-
-    // Helper to push a formatted text fragment for bytes [a..b) with the
-    // given run's format. Used both for whole runs and for the
-    // before-image / after-image slices when an image sits inside a run.
-    #[allow(clippy::too_many_arguments)]
-    fn emit_run_text(
-        fragments: &mut Vec<FragmentContent>,
-        plain: &str,
-        block_id: u64,
-        byte_a: u32,
-        byte_b: u32,
-        run_format: &frontend::common::format_runs::CharacterFormat,
-        char_offset: &mut usize,
-        byte_cursor: &mut u32,
-    ) {
-        if byte_a >= byte_b {
-            return;
-        }
-        let text = &plain[byte_a as usize..byte_b as usize];
-        let length = text.chars().count();
-        let word_starts = compute_word_starts(text);
-        fragments.push(FragmentContent::Text {
-            text: text.to_string(),
-            format: TextFormat::from(run_format),
-            offset: *char_offset,
-            length,
-            element_id: synth_element_id(block_id, byte_a),
-            word_starts,
-        });
-        *char_offset += length;
-        *byte_cursor = byte_b;
-    }
-
-    for run in &runs {
-        let mut run_cursor = run.byte_start;
-
-        // Emit images that fall strictly before this run, then handle
-        // images that fall inside the run by splitting it at each
-        // image's byte_offset.
-        while let Some(img) = img_iter.peek() {
-            if img.byte_offset < run.byte_start {
-                // Image before the run — emit unformatted gap text, then image.
-                emit_default_text(
-                    &mut fragments,
-                    plain,
-                    block_id,
-                    byte_cursor,
-                    img.byte_offset,
-                    &mut char_offset,
-                    &mut byte_cursor,
-                );
-                fragments.push(FragmentContent::Image {
-                    name: img.name.clone(),
-                    width: img.width as u32,
-                    height: img.height as u32,
-                    quality: img.quality as u32,
-                    format: TextFormat::from(&img.format),
+    let mut next_image = 0usize;
+
+    for segment in inline_segments_view(plain, &runs, &images) {
+        let format = TextFormat::from(&character_format_from_segment(&segment));
+        match segment.content {
+            InlineContent::Text(text) => {
+                let length = text.chars().count();
+                let bytes = text.len() as u32;
+                let word_starts = compute_word_starts(&text);
+                fragments.push(FragmentContent::Text {
+                    text,
+                    format,
                     offset: char_offset,
-                    element_id: synth_element_id(block_id, img.byte_offset),
+                    length,
+                    element_id: synth_element_id(block_id, byte_cursor),
+                    word_starts,
                 });
-                char_offset += 1;
-                img_iter.next();
-            } else if img.byte_offset <= run.byte_end {
-                // Image at the run's start or inside the run.
-                // First close any unformatted gap upstream of the run.
-                emit_default_text(
-                    &mut fragments,
-                    plain,
-                    block_id,
-                    byte_cursor,
-                    run_cursor,
-                    &mut char_offset,
-                    &mut byte_cursor,
-                );
-                // Emit the formatted text slice [run_cursor..img.byte_offset).
-                emit_run_text(
-                    &mut fragments,
-                    plain,
-                    block_id,
-                    run_cursor,
-                    img.byte_offset,
-                    &run.format,
-                    &mut char_offset,
-                    &mut byte_cursor,
-                );
-                // Emit the image itself.
+                char_offset += length;
+                byte_cursor += bytes;
+            }
+            InlineContent::Image {
+                name,
+                width,
+                height,
+                quality,
+            } => {
                 fragments.push(FragmentContent::Image {
-                    name: img.name.clone(),
-                    width: img.width as u32,
-                    height: img.height as u32,
-                    quality: img.quality as u32,
-                    format: TextFormat::from(&img.format),
+                    name,
+                    width: width as u32,
+                    height: height as u32,
+                    quality: quality as u32,
+                    format,
                     offset: char_offset,
-                    element_id: synth_element_id(block_id, img.byte_offset),
+                    element_id: synth_element_id(block_id, byte_cursor),
                 });
                 char_offset += 1;
-                run_cursor = img.byte_offset;
-                byte_cursor = img.byte_offset;
-                img_iter.next();
-            } else {
-                break;
+                byte_cursor += image_sentinel_len(plain, &images, next_image);
+                next_image += 1;
             }
+            InlineContent::Empty => {}
         }
-
-        // Unformatted gap between byte_cursor and the run's start (if
-        // the run starts past where we last emitted).
-        emit_default_text(
-            &mut fragments,
-            plain,
-            block_id,
-            byte_cursor,
-            run_cursor,
-            &mut char_offset,
-            &mut byte_cursor,
-        );
-
-        // Emit the remaining tail of the run [run_cursor..run.byte_end).
-        emit_run_text(
-            &mut fragments,
-            plain,
-            block_id,
-            run_cursor,
-            run.byte_end,
-            &run.format,
-            &mut char_offset,
-            &mut byte_cursor,
-        );
-    }
-
-    // Any remaining images after the last run.
-    for img in img_iter {
-        emit_default_text(
-            &mut fragments,
-            plain,
-            block_id,
-            byte_cursor,
-            img.byte_offset,
-            &mut char_offset,
-            &mut byte_cursor,
-        );
-        fragments.push(FragmentContent::Image {
-            name: img.name.clone(),
-            width: img.width as u32,
-            height: img.height as u32,
-            quality: img.quality as u32,
-            format: TextFormat::from(&img.format),
-            offset: char_offset,
-            element_id: synth_element_id(block_id, img.byte_offset),
-        });
-        char_offset += 1;
     }
 
-    // Trailing unformatted text after the last run / image.
-    emit_default_text(
-        &mut fragments,
-        plain,
-        block_id,
-        byte_cursor,
-        plain.len() as u32,
-        &mut char_offset,
-        &mut byte_cursor,
-    );
-
     fragments
 }
 
-- 
2.43.0


From dd2b0a083b9523e14ae2a9487008ca2e2e06b698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:07 +0000
Subject: [PATCH 34/55] fix: rope helpers keep boundaries and starts next to
 empty blocks

---
 crates/common/src/database/rope_helpers.rs | 27 ++++++++++++++--------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/crates/common/src/database/rope_helpers.rs b/crates/common/src/database/rope_helpers.rs
index 94b86d8..c770604 100644
--- a/crates/common/src/database/rope_helpers.rs
+++ b/crates/common/src/database/rope_helpers.rs
@@ -389,8 +389,7 @@ pub fn top_level_frame_end_byte(store: &Store, frame_id: EntityId) -> u32 {
 /// position. Returns that byte position. Used when `insert_frame_uc`
 /// creates a new top-level frame with a single empty block.
 pub fn rope_append_empty_block(store: &Store, block_id: EntityId) -> u32 {
-    let was_empty = store.rope.read().unwrap().len_bytes() == 0;
-    if !was_empty {
+    if !rope_holds_nothing(store) {
         rope_insert_block_boundary(store);
     }
     let pos = store.rope.read().unwrap().len_bytes() as u32;
@@ -400,6 +399,12 @@ pub fn rope_append_empty_block(store: &Store, block_id: EntityId) -> u32 {
     pos
 }
 
+/// Whether there is nothing to separate an appended entry from: no text and
+/// no entry (a single empty block has no text, yet needs its boundary).
+fn rope_holds_nothing(store: &Store) -> bool {
+    store.rope.read().unwrap().len_bytes() == 0 && store.block_offsets.read().unwrap().is_empty()
+}
+
 /// Append a single `\n` inter-block boundary character to the end of
 /// the rope. Does NOT register a block — this is the sentinel between
 /// two adjacent blocks within the same frame (plan §1.4).
@@ -658,7 +663,8 @@ pub fn rope_insert_table_anchor(
             "\n\u{FFFC}",
             insert_pos + 1,
             target_idx + 1,
-            insert_pos,
+            // An empty target starts at `insert_pos` and stays there.
+            insert_pos + 1,
             4i32,
         )
     };
@@ -702,9 +708,9 @@ pub fn rope_insert_table_anchor(
 /// encounter them, rather than inserting relative to an existing
 /// target block.
 pub fn rope_append_table_anchor(store: &Store, table_id: EntityId) {
+    let was_empty = rope_holds_nothing(store);
     let (anchor_byte_start, new_total) = {
         let mut rope = store.rope.write().unwrap();
-        let was_empty = rope.len_bytes() == 0;
         let char_end = rope.len_chars();
         let to_insert = if was_empty { "\u{FFFC}" } else { "\n\u{FFFC}" };
         rope.insert(char_end, to_insert);
@@ -750,8 +756,11 @@ pub fn rope_remove_table_anchor(store: &Store, table_id: EntityId) {
     //   preceding `\n` + the 3-byte sentinel
     // - otherwise: [byte_start .. byte_start + 4) — the sentinel
     //   + the following `\n`
+    // - if it is the only entry: the sentinel alone
     let (remove_start, remove_end) = if anchor_is_last && has_predecessor {
         (anchor_byte_start - 1, anchor_byte_start + 3)
+    } else if anchor_is_last {
+        (anchor_byte_start, anchor_byte_start + 3)
     } else {
         (anchor_byte_start, anchor_byte_start + 4)
     };
@@ -770,7 +779,7 @@ pub fn rope_remove_table_anchor(store: &Store, table_id: EntityId) {
         .block_offsets
         .write()
         .unwrap()
-        .shift_after(remove_start, -4);
+        .shift_after(remove_end, -((remove_end - remove_start) as i32));
 }
 
 /// Remove a registered block from the rope: drops its content bytes
@@ -856,16 +865,16 @@ pub fn rope_remove_block(store: &Store, block_id: EntityId) {
 pub fn rope_replace_block_content(store: &Store, block_id: EntityId, new_text: &str) {
     let (block_byte_start, content_bytes) = {
         let offsets = store.block_offsets.read().unwrap();
-        let Some((start, end)) = offsets.range_of_block(block_id) else {
+        let Some((start, end, has_trailing_boundary)) =
+            offsets.range_with_successor(OffsetMarker::Block(block_id))
+        else {
             return;
         };
-        let total = offsets.total_bytes();
-        // `range_of` extends to the next entry's `byte_start` (or to
+        // The range extends to the next entry's `byte_start` (or to
         // `total_bytes`). If there's a following entry, the byte at
         // `end - 1` is the inter-block boundary `\n` that belongs to
         // the boundary between this block and the next, not to this
         // block's content.
-        let has_trailing_boundary = end < total;
         let content_bytes = if has_trailing_boundary {
             end - start - 1
         } else {
-- 
2.43.0


From 61ac42330177bd9c0b1155103fc7ed94effbfc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:07 +0000
Subject: [PATCH 35/55] fix: undo and redo report changed images, and block and
 character changes separately

---
 crates/public_api/src/document.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/crates/public_api/src/document.rs b/crates/public_api/src/document.rs
index 043be8e..47f9e27 100644
--- a/crates/public_api/src/document.rs
+++ b/crates/public_api/src/document.rs
@@ -1076,6 +1076,7 @@ struct UndoBlockState {
     plain_text: String,
     format: BlockFormat,
     runs: Vec<common::format_runs::FormatRun>,
+    images: Vec<common::format_runs::ImageAnchor>,
     list: Option<frontend::list::dtos::ListDto>,
 }
 
@@ -1086,6 +1087,7 @@ fn capture_block_state(inner: &TextDocumentInner) -> Vec<UndoBlockState> {
     let store = inner.ctx.db_context.get_store();
     crate::inner::refresh_block_positions(&mut all_blocks, store);
     let format_runs = store.format_runs.read().unwrap().clone();
+    let block_images = store.block_images.read().unwrap().clone();
     let mut states: Vec<UndoBlockState> = all_blocks
         .into_iter()
         .map(|b| {
@@ -1095,6 +1097,7 @@ fn capture_block_state(inner: &TextDocumentInner) -> Vec<UndoBlockState> {
                 common::database::rope_helpers::block_content_via_store(&entity, store);
             let text_length = common::database::rope_helpers::block_char_length(&entity, store);
             let runs = format_runs.get(&b.id).cloned().unwrap_or_default();
+            let images = block_images.get(&b.id).cloned().unwrap_or_default();
             let list = b
                 .list
                 .and_then(|id| list_commands::get_list(&inner.ctx, &id).ok().flatten());
@@ -1105,6 +1108,7 @@ fn capture_block_state(inner: &TextDocumentInner) -> Vec<UndoBlockState> {
                 plain_text,
                 format,
                 runs,
+                images,
                 list,
             }
         })
@@ -1179,7 +1183,8 @@ fn emit_undo_redo_change_events(inner: &mut TextDocumentInner, before: &[UndoBlo
             let text_changed = before_state.plain_text != after_state.plain_text
                 || before_state.text_length != after_state.text_length;
             let format_changed = before_state.format != after_state.format;
-            let runs_changed = before_state.runs != after_state.runs;
+            let runs_changed = before_state.runs != after_state.runs
+                || before_state.images != after_state.images;
             list_changed |= before_state.list != after_state.list;
 
             if text_changed {
@@ -1195,12 +1200,12 @@ fn emit_undo_redo_change_events(inner: &mut TextDocumentInner, before: &[UndoBlo
             } else if format_changed || runs_changed {
                 let pos = after_state.position.max(0) as usize;
                 let len = after_state.text_length.max(0) as usize;
-                let kind = if format_changed {
-                    FormatChangeKind::Block
-                } else {
-                    FormatChangeKind::Character
-                };
-                format_only_changes.push((pos, len, kind));
+                if format_changed {
+                    format_only_changes.push((pos, len, FormatChangeKind::Block));
+                }
+                if runs_changed {
+                    format_only_changes.push((pos, len, FormatChangeKind::Character));
+                }
             }
         } else {
             // Block exists in after but not in before — new block from undo/redo.
-- 
2.43.0


From ce5b050d4b189aeca83719ba071ad285ce0336ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:34 +0000
Subject: [PATCH 36/55] fix: a dropped subscription gets nothing more of the
 batch being delivered

---
 crates/public_api/src/inner.rs | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/crates/public_api/src/inner.rs b/crates/public_api/src/inner.rs
index 964ffb0..7df4873 100644
--- a/crates/public_api/src/inner.rs
+++ b/crates/public_api/src/inner.rs
@@ -19,10 +19,7 @@ use std::sync::{Arc, Weak};
 use parking_lot::Mutex;
 
 /// A batch of events paired with the callbacks to invoke for each.
-pub(crate) type QueuedEvents = Vec<(
-    crate::events::DocumentEvent,
-    Vec<Arc<dyn Fn(crate::events::DocumentEvent) + Send + Sync>>,
-)>;
+pub(crate) type QueuedEvents = Vec<(crate::events::DocumentEvent, Vec<CallbackEntry>)>;
 
 use anyhow::Result;
 use frontend::AppContext;
@@ -43,11 +40,21 @@ pub(crate) struct CursorData {
 }
 
 /// Callback entry for document event subscriptions.
+#[derive(Clone)]
 pub(crate) struct CallbackEntry {
     pub alive: Weak<AtomicBool>,
     pub callback: Arc<dyn Fn(DocumentEvent) + Send + Sync>,
 }
 
+impl CallbackEntry {
+    /// Is the subscription still held?
+    pub fn is_alive(&self) -> bool {
+        self.alive
+            .upgrade()
+            .is_some_and(|alive| alive.load(std::sync::atomic::Ordering::Relaxed))
+    }
+}
+
 /// The shared document interior, behind `Arc<Mutex<>>`.
 pub(crate) struct TextDocumentInner {
     pub ctx: AppContext,
@@ -194,17 +201,11 @@ impl TextDocumentInner {
         self.callbacks
             .retain(|entry| entry.alive.strong_count() > 0);
 
-        let live_callbacks: Vec<Arc<dyn Fn(DocumentEvent) + Send + Sync>> = self
+        let live_callbacks: Vec<CallbackEntry> = self
             .callbacks
             .iter()
-            .filter_map(|entry| {
-                let alive = entry.alive.upgrade()?;
-                if alive.load(std::sync::atomic::Ordering::Relaxed) {
-                    Some(Arc::clone(&entry.callback))
-                } else {
-                    None
-                }
-            })
+            .filter(|entry| entry.is_alive())
+            .cloned()
             .collect();
 
         if live_callbacks.is_empty() {
@@ -444,11 +445,12 @@ impl Drop for TextDocumentInner {
 /// Dispatch queued events outside the lock.
 ///
 /// Call this after releasing the document mutex to avoid deadlocks
-/// when callbacks call back into the document.
+/// when callbacks call back into the document. A callback whose
+/// subscription was dropped meanwhile is passed over.
 pub(crate) fn dispatch_queued_events(queued: QueuedEvents) {
     for (event, callbacks) in queued {
-        for cb in &callbacks {
-            cb(event.clone());
+        for entry in callbacks.iter().filter(|entry| entry.is_alive()) {
+            (entry.callback)(event.clone());
         }
     }
 }
-- 
2.43.0


From c161f88a8003dde2d22578a35bd534eda5ecac66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:19 +0000
Subject: [PATCH 37/55] fix: a long operation ends once, in one state, and says
 so after it is so

The end was decided from the cancel flag before the status was written, so
a cancel in between was overwritten by Completed after its event; cancelling a
finished operation announced Cancelled again; a panic left it Running for ever;
progress went on after the end.
---
 crates/common/src/long_operation.rs | 105 ++++++++++++++++++++--------
 1 file changed, 77 insertions(+), 28 deletions(-)

diff --git a/crates/common/src/long_operation.rs b/crates/common/src/long_operation.rs
index e763ebd..a182674 100644
--- a/crates/common/src/long_operation.rs
+++ b/crates/common/src/long_operation.rs
@@ -113,6 +113,7 @@
 use crate::event::{Event, EventHub, LongOperationEvent, Origin};
 use anyhow::Result;
 use std::collections::HashMap;
+use std::panic::{AssertUnwindSafe, catch_unwind};
 use std::sync::{
     Arc, Mutex,
     atomic::{AtomicBool, Ordering},
@@ -161,6 +162,7 @@ trait OperationHandleTrait: Send {
     fn get_progress(&self) -> OperationProgress;
     fn cancel(&self);
     fn is_finished(&self) -> bool;
+    fn is_stopped(&self) -> bool;
 }
 
 /// Lock a mutex, recovering from poisoning by returning the inner value.
@@ -179,6 +181,7 @@ struct OperationHandle {
     status: Arc<Mutex<OperationStatus>>,
     progress: Arc<Mutex<OperationProgress>>,
     cancel_flag: Arc<AtomicBool>,
+    stopped: Arc<AtomicBool>,
     _join_handle: thread::JoinHandle<()>,
 }
 
@@ -192,9 +195,9 @@ impl OperationHandleTrait for OperationHandle {
     }
 
     fn cancel(&self) {
-        self.cancel_flag.store(true, Ordering::Relaxed);
         let mut status = lock_or_recover(&self.status);
         if matches!(*status, OperationStatus::Running) {
+            self.cancel_flag.store(true, Ordering::Relaxed);
             *status = OperationStatus::Cancelled;
         }
     }
@@ -205,6 +208,40 @@ impl OperationHandleTrait for OperationHandle {
             OperationStatus::Completed | OperationStatus::Cancelled | OperationStatus::Failed(_)
         )
     }
+
+    fn is_stopped(&self) -> bool {
+        self.stopped.load(Ordering::Acquire)
+    }
+}
+
+/// Run the operation to its outcome. A panic counts as a failure; the
+/// serialized result comes with a completed operation only.
+fn run_to_outcome<Op: LongOperation>(
+    operation: &Op,
+    progress_callback: Box<dyn Fn(OperationProgress) + Send>,
+    cancel_flag: Arc<AtomicBool>,
+) -> (OperationStatus, Option<String>) {
+    let attempt = catch_unwind(AssertUnwindSafe(|| {
+        operation
+            .execute(progress_callback, cancel_flag)
+            .and_then(|result| Ok(serde_json::to_string(&result)?))
+            .map_err(|e| e.to_string())
+    }));
+    match attempt {
+        Ok(Ok(serialized)) => (OperationStatus::Completed, Some(serialized)),
+        Ok(Err(error)) => (OperationStatus::Failed(error), None),
+        Err(panic) => {
+            let reason = panic
+                .downcast_ref::<&str>()
+                .map(|s| s.to_string())
+                .or_else(|| panic.downcast_ref::<String>().cloned())
+                .unwrap_or_else(|| "unknown panic".to_string());
+            (
+                OperationStatus::Failed(format!("Operation panicked: {reason}")),
+                None,
+            )
+        }
+    }
 }
 
 // Manager for long operations
@@ -269,16 +306,28 @@ impl LongOperationManager {
         let status_clone = status.clone();
         let progress_clone = progress.clone();
         let cancel_flag_clone = cancel_flag.clone();
+        let stopped = Arc::new(AtomicBool::new(false));
+        let stopped_clone = stopped.clone();
         let results_clone = self.results.clone();
         let id_clone = id.clone();
         let event_hub_opt = self.event_hub.clone();
 
+        // Held until the handle is registered, so that the operation is
+        // known before anything about it can be observed.
+        let mut operations = lock_or_recover(&self.operations);
+
         let join_handle = thread::spawn(move || {
             let progress_callback = {
                 let progress = progress_clone.clone();
+                let status = status_clone.clone();
                 let event_hub_opt = event_hub_opt.clone();
                 let id_for_cb = id_clone.clone();
                 Box::new(move |prog: OperationProgress| {
+                    // No progress once the operation has ended
+                    let status = lock_or_recover(&status);
+                    if !matches!(*status, OperationStatus::Running) {
+                        return;
+                    }
                     *lock_or_recover(&progress) = prog.clone();
                     if let Some(event_hub) = &event_hub_opt {
                         let payload = serde_json::json!({
@@ -296,24 +345,24 @@ impl LongOperationManager {
                 }) as Box<dyn Fn(OperationProgress) + Send>
             };
 
-            let operation_result = operation.execute(progress_callback, cancel_flag_clone.clone());
-
-            let final_status = if cancel_flag_clone.load(Ordering::Relaxed) {
-                OperationStatus::Cancelled
-            } else {
-                match &operation_result {
-                    Ok(result) => {
-                        // Store the result
-                        if let Ok(serialized) = serde_json::to_string(result) {
-                            let mut results = lock_or_recover(&results_clone);
-                            results.insert(id_clone.clone(), serialized);
-                        }
-                        OperationStatus::Completed
+            let (outcome, serialized) =
+                run_to_outcome(&operation, progress_callback, cancel_flag_clone);
+
+            // The first end wins: an operation cancelled meanwhile stays
+            // cancelled. The result is available before the completion shows.
+            let final_status = {
+                let mut status = lock_or_recover(&status_clone);
+                if matches!(*status, OperationStatus::Running) {
+                    if let Some(serialized) = serialized {
+                        lock_or_recover(&results_clone).insert(id_clone.clone(), serialized);
                     }
-                    Err(e) => OperationStatus::Failed(e.to_string()),
+                    *status = outcome;
                 }
+                status.clone()
             };
 
+            stopped_clone.store(true, Ordering::Release);
+
             // Emit final status event
             if let Some(event_hub) = &event_hub_opt {
                 let (event, data) = match &final_status {
@@ -340,18 +389,17 @@ impl LongOperationManager {
                     data: Some(data),
                 });
             }
-
-            *lock_or_recover(&status_clone) = final_status;
         });
 
         let handle = OperationHandle {
             status,
             progress,
             cancel_flag,
+            stopped,
             _join_handle: join_handle,
         };
 
-        lock_or_recover(&self.operations).insert(id.clone(), Box::new(handle));
+        operations.insert(id.clone(), Box::new(handle));
 
         id
     }
@@ -368,20 +416,14 @@ impl LongOperationManager {
         operations.get(id).map(|handle| handle.get_progress())
     }
 
-    /// Cancel an operation
+    /// Cancel an operation. No-op if it has already finished.
+    ///
+    /// The status is `Cancelled` from here on; the cancelled event follows
+    /// once the operation has stopped working.
     pub fn cancel_operation(&self, id: &str) -> bool {
         let operations = lock_or_recover(&self.operations);
         if let Some(handle) = operations.get(id) {
             handle.cancel();
-            // Emit cancelled event immediately
-            if let Some(event_hub) = &self.event_hub {
-                let payload = serde_json::json!({"id": id}).to_string();
-                event_hub.send_event(Event {
-                    origin: Origin::LongOperation(LongOperationEvent::Cancelled),
-                    ids: vec![],
-                    data: Some(payload),
-                });
-            }
             true
         } else {
             false
@@ -394,6 +436,13 @@ impl LongOperationManager {
         operations.get(id).map(|handle| handle.is_finished())
     }
 
+    /// Check if an operation has stopped working: it is finished and touches
+    /// nothing any more, which a cancelled operation may still do for a while
+    pub fn is_operation_stopped(&self, id: &str) -> Option<bool> {
+        let operations = lock_or_recover(&self.operations);
+        operations.get(id).map(|handle| handle.is_stopped())
+    }
+
     /// Remove finished operations from memory
     pub fn cleanup_finished_operations(&self) {
         let mut operations = lock_or_recover(&self.operations);
-- 
2.43.0


From a6a877ccc621909692fdec2cd5aa93eb7663573e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:19 +0000
Subject: [PATCH 38/55] fix: event hub callbacks run without the subscriber map
 locked

A callback that dropped the last owner of a SubscriptionToken, which the
document's long-operation bridge can do, locked the map again and hung the
event thread.
---
 crates/frontend/src/event_hub_client.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/crates/frontend/src/event_hub_client.rs b/crates/frontend/src/event_hub_client.rs
index 57f75a8..ad6248e 100644
--- a/crates/frontend/src/event_hub_client.rs
+++ b/crates/frontend/src/event_hub_client.rs
@@ -12,7 +12,10 @@ pub type EventCallback = Box<dyn Fn(Event) + Send>;
 /// Internal storage: each subscriber entry pairs its id (for O(n) removal on
 /// token drop) with its callback. Vec preserves registration order so
 /// subscribers fire deterministically.
-type SubscriberList = Vec<(u64, EventCallback)>;
+///
+/// Callbacks are shared so that they run without the map being locked: a
+/// callback may subscribe, unsubscribe, or drop the last owner of its token.
+type SubscriberList = Vec<(u64, Arc<Mutex<EventCallback>>)>;
 
 /// EventHubClient - handles event passing from backend to UI
 /// Subscribe callbacks to specific event origins and start the event loop.
@@ -46,7 +49,7 @@ impl EventHubClient {
             let mut subs = self.subscribers.lock().unwrap();
             subs.entry(origin.clone())
                 .or_default()
-                .push((id, Box::new(callback)));
+                .push((id, Arc::new(Mutex::new(Box::new(callback)))));
         }
         SubscriptionToken {
             subscribers: Arc::clone(&self.subscribers),
@@ -83,11 +86,14 @@ impl EventHubClient {
                 match outcome {
                     Ok(Some(event)) => {
                         log::debug!("EventHubClient received event: {:?}", event);
-                        let subs = subscribers.lock().unwrap();
-                        if let Some(callbacks) = subs.get(&event.origin) {
-                            for (_id, callback) in callbacks {
-                                callback(event.clone());
-                            }
+                        let callbacks = subscribers
+                            .lock()
+                            .unwrap()
+                            .get(&event.origin)
+                            .cloned()
+                            .unwrap_or_default();
+                        for (_id, callback) in callbacks {
+                            (callback.lock().unwrap())(event.clone());
                         }
                     }
                     Ok(None) => {
-- 
2.43.0


From 2e9e9a9aafdca5b09cde1c6f8dd7e6ff71c529e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:19 +0000
Subject: [PATCH 39/55] fix: the handle of a failed or cancelled operation
 ends, and the document is up to date by then

wait() blocked for ever unless the operation completed. After wait() the cached
text, the cursors, the highlighting and the undo history could still be those
from before the import; a DOCX export announced a reset of the document; on_change
listeners heard of the end only with the next edit.
---
 crates/public_api/src/document.rs  | 66 +++++++++++++++++---------
 crates/public_api/src/inner.rs     | 26 +++++++++++
 crates/public_api/src/operation.rs | 75 ++++++++++++++++++++----------
 3 files changed, 120 insertions(+), 47 deletions(-)

diff --git a/crates/public_api/src/document.rs b/crates/public_api/src/document.rs
index 47f9e27..9985a41 100644
--- a/crates/public_api/src/document.rs
+++ b/crates/public_api/src/document.rs
@@ -1,6 +1,6 @@
 //! TextDocument implementation.
 
-use std::sync::Arc;
+use std::sync::{Arc, Weak};
 
 use parking_lot::Mutex;
 
@@ -86,15 +86,14 @@ impl TextDocument {
             locked
                 .event_client
                 .subscribe(Origin::LongOperation(LOE::Progress), move |event| {
-                    if let Some(inner) = w.upgrade() {
-                        let (op_id, percent, message) = parse_progress_data(&event.data);
-                        let mut inner = inner.lock();
+                    let (op_id, percent, message) = parse_progress_data(&event.data);
+                    queue_and_dispatch(&w, |inner| {
                         inner.queue_event(DocumentEvent::LongOperationProgress {
                             operation_id: op_id,
                             percent,
                             message,
                         });
-                    }
+                    });
                 });
 
         // Completed
@@ -103,20 +102,15 @@ impl TextDocument {
             locked
                 .event_client
                 .subscribe(Origin::LongOperation(LOE::Completed), move |event| {
-                    if let Some(inner) = w.upgrade() {
-                        let op_id = parse_id_data(&event.data);
-                        let mut inner = inner.lock();
-                        inner.invalidate_text_cache();
-                        inner.clamp_cursors();
-                        inner.queue_event(DocumentEvent::DocumentReset);
-                        inner.check_block_count_changed();
-                        inner.reset_cached_child_order();
+                    let op_id = parse_id_data(&event.data);
+                    queue_and_dispatch(&w, |inner| {
+                        inner.finish_import(&op_id);
                         inner.queue_event(DocumentEvent::LongOperationFinished {
                             operation_id: op_id,
                             success: true,
                             error: None,
                         });
-                    }
+                    });
                 });
 
         // Cancelled
@@ -125,15 +119,15 @@ impl TextDocument {
             locked
                 .event_client
                 .subscribe(Origin::LongOperation(LOE::Cancelled), move |event| {
-                    if let Some(inner) = w.upgrade() {
-                        let op_id = parse_id_data(&event.data);
-                        let mut inner = inner.lock();
+                    let op_id = parse_id_data(&event.data);
+                    queue_and_dispatch(&w, |inner| {
+                        inner.finish_import(&op_id);
                         inner.queue_event(DocumentEvent::LongOperationFinished {
                             operation_id: op_id,
                             success: false,
                             error: Some("cancelled".into()),
                         });
-                    }
+                    });
                 });
 
         // Failed
@@ -141,15 +135,15 @@ impl TextDocument {
             locked
                 .event_client
                 .subscribe(Origin::LongOperation(LOE::Failed), move |event| {
-                    if let Some(inner) = weak.upgrade() {
-                        let (op_id, error) = parse_failed_data(&event.data);
-                        let mut inner = inner.lock();
+                    let (op_id, error) = parse_failed_data(&event.data);
+                    queue_and_dispatch(&weak, |inner| {
+                        inner.finish_import(&op_id);
                         inner.queue_event(DocumentEvent::LongOperationFinished {
                             operation_id: op_id,
                             success: false,
                             error: Some(error),
                         });
-                    }
+                    });
                 });
 
         locked.long_op_subscriptions.extend([
@@ -160,6 +154,13 @@ impl TextDocument {
         ]);
     }
 
+    /// What an import's handle calls when the import is over: the document is
+    /// up to date by the time the outcome is known.
+    fn catch_up_with_import(&self) -> Box<dyn Fn(&str) + Send> {
+        let weak = Arc::downgrade(&self.inner);
+        Box::new(move |id| queue_and_dispatch(&weak, |inner| inner.finish_import(id)))
+    }
+
     // ── Whole-document content ────────────────────────────────
 
     /// Replace the entire document with plain text. Clears undo history.
@@ -203,6 +204,7 @@ impl TextDocument {
             markdown_text: markdown.into(),
         };
         let op_id = document_io_commands::import_markdown(&inner.ctx, &dto)?;
+        inner.unfinished_imports.push(op_id.clone());
         undo_redo_commands::clear_stack(&inner.ctx, inner.stack_id);
         inner.queue_event(DocumentEvent::UndoRedoChanged {
             can_undo: false,
@@ -221,6 +223,7 @@ impl TextDocument {
                         })
                     })
             }),
+            self.catch_up_with_import(),
         );
         let queued = inner.take_queued_events();
         drop(inner);
@@ -245,6 +248,7 @@ impl TextDocument {
             html_text: html.into(),
         };
         let op_id = document_io_commands::import_html(&inner.ctx, &dto)?;
+        inner.unfinished_imports.push(op_id.clone());
         undo_redo_commands::clear_stack(&inner.ctx, inner.stack_id);
         inner.queue_event(DocumentEvent::UndoRedoChanged {
             can_undo: false,
@@ -263,6 +267,7 @@ impl TextDocument {
                         })
                     })
             }),
+            self.catch_up_with_import(),
         );
         let queued = inner.take_queued_events();
         drop(inner);
@@ -311,6 +316,7 @@ impl TextDocument {
                         })
                     })
             }),
+            Box::new(|_| {}),
         ))
     }
 
@@ -1351,6 +1357,22 @@ pub(crate) fn get_main_frame_id(inner: &TextDocumentInner) -> frontend::common::
     frames.first().copied().unwrap_or(0)
 }
 
+/// Update the document, if it still exists, from outside of its methods and
+/// deliver the events this queues.
+fn queue_and_dispatch(
+    document: &Weak<Mutex<TextDocumentInner>>,
+    update: impl FnOnce(&mut TextDocumentInner),
+) {
+    if let Some(inner) = document.upgrade() {
+        let queued = {
+            let mut inner = inner.lock();
+            update(&mut inner);
+            inner.take_queued_events()
+        };
+        crate::inner::dispatch_queued_events(queued);
+    }
+}
+
 // ── Long-operation event data helpers ─────────────────────────
 
 /// Parse progress JSON: `{"id":"...", "percentage": 50.0, "message": "..."}`
diff --git a/crates/public_api/src/inner.rs b/crates/public_api/src/inner.rs
index 7df4873..57f143d 100644
--- a/crates/public_api/src/inner.rs
+++ b/crates/public_api/src/inner.rs
@@ -104,6 +104,9 @@ pub(crate) struct TextDocumentInner {
     // Syntax highlighting state (shadow formatting layer).
     pub highlight: Option<HighlightData>,
 
+    // Ids of the imports the rest of this state has yet to catch up with.
+    pub unfinished_imports: Vec<String>,
+
     // Holds SubscriptionTokens for LongOperation event bridges. Dropping a
     // token unsubscribes the callback, so these must outlive the document.
     pub long_op_subscriptions: Vec<SubscriptionToken>,
@@ -232,6 +235,28 @@ impl TextDocumentInner {
         }
     }
 
+    /// Catch up with a finished import (its thread replaced the content
+    /// behind this state). Does nothing for any other operation, nor twice.
+    pub fn finish_import(&mut self, operation_id: &str) {
+        let Some(at) = self
+            .unfinished_imports
+            .iter()
+            .position(|id| id == operation_id)
+        else {
+            return;
+        };
+        self.unfinished_imports.swap_remove(at);
+        let availability = self.undo_availability();
+        frontend::commands::undo_redo_commands::clear_stack(&self.ctx, self.stack_id);
+        self.invalidate_text_cache();
+        self.clamp_cursors();
+        self.rehighlight_all();
+        self.queue_event(DocumentEvent::DocumentReset);
+        self.check_block_count_changed();
+        self.reset_cached_child_order();
+        self.check_undo_availability_changed(availability);
+    }
+
     /// Invalidate the cached plain text. Call after any edit.
     pub fn invalidate_text_cache(&mut self) {
         self.plain_text_cache = None;
@@ -431,6 +456,7 @@ impl TextDocumentInner {
             last_block_count: 1, // new document starts with one block
             last_child_order: vec![block.id as i64],
             highlight: None,
+            unfinished_imports: Vec::new(),
             long_op_subscriptions: Vec::new(),
         })
     }
diff --git a/crates/public_api/src/operation.rs b/crates/public_api/src/operation.rs
index 31770be..8bfa1e3 100644
--- a/crates/public_api/src/operation.rs
+++ b/crates/public_api/src/operation.rs
@@ -1,15 +1,20 @@
 //! Typed long operation handle.
 
+use std::sync::MutexGuard;
 use std::thread;
 use std::time::Duration;
 
-use anyhow::Result;
+use anyhow::{Result, anyhow};
 
 use frontend::AppContext;
+use frontend::common::long_operation::{LongOperationManager, OperationStatus};
 
 /// Function that polls the long-operation manager for a result.
 type ResultFn<T> = Box<dyn Fn(&AppContext, &str) -> Option<Result<T>> + Send>;
 
+/// Function that brings the document up to date with the finished operation.
+type FinishedFn = Box<dyn Fn(&str) + Send>;
+
 /// Shared state for a single long operation.
 pub(crate) struct OperationState {
     ctx: AppContext,
@@ -34,17 +39,50 @@ pub struct Operation<T> {
     id: String,
     state: OperationState,
     result_fn: ResultFn<T>,
+    finished_fn: FinishedFn,
 }
 
 impl<T> Operation<T> {
-    pub(crate) fn new(id: String, ctx: &AppContext, result_fn: ResultFn<T>) -> Self {
+    pub(crate) fn new(
+        id: String,
+        ctx: &AppContext,
+        result_fn: ResultFn<T>,
+        finished_fn: FinishedFn,
+    ) -> Self {
         Self {
             id,
             state: OperationState::new(ctx),
             result_fn,
+            finished_fn,
         }
     }
 
+    fn manager(&self) -> MutexGuard<'_, LongOperationManager> {
+        self.state
+            .ctx
+            .long_operation_manager
+            .lock()
+            .unwrap_or_else(|poisoned| poisoned.into_inner())
+    }
+
+    /// The outcome, once the operation has stopped working.
+    fn outcome(&self) -> Option<Result<T>> {
+        let status = {
+            let mgr = self.manager();
+            if mgr.is_operation_stopped(&self.id) == Some(false) {
+                return None;
+            }
+            mgr.get_operation_status(&self.id)
+        };
+        (self.finished_fn)(&self.id);
+        Some(match status {
+            Some(OperationStatus::Cancelled) => Err(anyhow!("operation was cancelled")),
+            Some(OperationStatus::Failed(error)) => Err(anyhow!(error)),
+            _ => (self.result_fn)(&self.state.ctx, &self.id)
+                .unwrap_or_else(|| Err(anyhow!("operation has no result"))),
+        })
+    }
+
     /// The operation ID (for matching with [`DocumentEvent`](crate::DocumentEvent) variants).
     pub fn id(&self) -> &str {
         &self.id
@@ -53,40 +91,27 @@ impl<T> Operation<T> {
     /// Get the current progress, if available.
     /// Returns `(percent, message)` where percent is 0.0–100.0.
     pub fn progress(&self) -> Option<(f64, String)> {
-        let mgr = self
-            .state
-            .ctx
-            .long_operation_manager
-            .lock()
-            .ok()
-            .or_else(|| {
-                // Mutex poisoned — recover by re-locking through the poison.
-                match self.state.ctx.long_operation_manager.lock() {
-                    Ok(g) => Some(g),
-                    Err(e) => Some(e.into_inner()),
-                }
-            })?;
+        let mgr = self.manager();
         mgr.get_operation_progress(&self.id)
             .map(|p| (p.percentage as f64, p.message.unwrap_or_default()))
     }
 
-    /// Returns `true` if the operation has finished (success or failure).
+    /// Returns `true` if the operation has finished (success, failure or
+    /// cancellation).
     pub fn is_done(&self) -> bool {
-        (self.result_fn)(&self.state.ctx, &self.id).is_some()
+        self.outcome().is_some()
     }
 
     /// Cancel the operation. No-op if already finished.
     pub fn cancel(&self) {
-        if let Ok(mgr) = self.state.ctx.long_operation_manager.lock() {
-            mgr.cancel_operation(&self.id);
-        }
+        self.manager().cancel_operation(&self.id);
     }
 
-    /// Block the calling thread until the operation completes and return
-    /// the typed result. Consumes the handle.
+    /// Block the calling thread until the operation finishes and return the
+    /// typed result, an error if it failed or was cancelled. Consumes the handle.
     pub fn wait(self) -> Result<T> {
         loop {
-            if let Some(result) = (self.result_fn)(&self.state.ctx, &self.id) {
+            if let Some(result) = self.outcome() {
                 return result;
             }
             thread::sleep(Duration::from_millis(50));
@@ -98,7 +123,7 @@ impl<T> Operation<T> {
     pub fn wait_timeout(self, timeout: Duration) -> Option<Result<T>> {
         let deadline = std::time::Instant::now() + timeout;
         loop {
-            if let Some(result) = (self.result_fn)(&self.state.ctx, &self.id) {
+            if let Some(result) = self.outcome() {
                 return Some(result);
             }
             if std::time::Instant::now() >= deadline {
@@ -112,7 +137,7 @@ impl<T> Operation<T> {
     /// Non-blocking: returns the result if the operation has completed,
     /// `None` if still running. Can be called repeatedly.
     pub fn try_result(&mut self) -> Option<Result<T>> {
-        (self.result_fn)(&self.state.ctx, &self.id)
+        self.outcome()
     }
 }
 
-- 
2.43.0


From cdde4db624e3ed575cd49b9671a4cddeec28ad51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:14 +0000
Subject: [PATCH 40/55] fix: an import shows in the document as a whole, when
 it has completed

The import thread rewrote the document in place without its lock: a read, an
edit or an undo meanwhile saw half of it and could panic, and a failed or
cancelled import's rollback threw concurrent edits away. It now builds the new
content apart; a DOCX export reads the document as it was when asked for.
---
 crates/common/src/database/db_context.rs | 10 ++++++++
 crates/common/src/database/rope_store.rs | 32 ++++++++++++++++++++++++
 crates/frontend/src/app_context.rs       |  8 ++++++
 crates/public_api/src/document.rs        | 28 +++++++++++++--------
 crates/public_api/src/inner.rs           | 22 ++++++++++------
 crates/public_api/src/operation.rs       |  7 +++---
 6 files changed, 86 insertions(+), 21 deletions(-)

diff --git a/crates/common/src/database/db_context.rs b/crates/common/src/database/db_context.rs
index a54a5c1..24b173a 100644
--- a/crates/common/src/database/db_context.rs
+++ b/crates/common/src/database/db_context.rs
@@ -16,6 +16,16 @@ impl DbContext {
         })
     }
 
+    /// A context over a copy of the store: what is written through it does
+    /// not show here, and the other way round.
+    pub fn fork(&self) -> Self {
+        let store = Store::default();
+        store.restore(&self.store.snapshot());
+        DbContext {
+            store: Arc::new(store),
+        }
+    }
+
     pub fn get_store(&self) -> &Arc<Store> {
         &self.store
     }
diff --git a/crates/common/src/database/rope_store.rs b/crates/common/src/database/rope_store.rs
index 06d642e..4f964bd 100644
--- a/crates/common/src/database/rope_store.rs
+++ b/crates/common/src/database/rope_store.rs
@@ -138,6 +138,38 @@ impl RopeStore {
         self.savepoints.write().unwrap().remove(&savepoint_id);
     }
 
+    /// Take over the content (text, structure, formatting) of `other`, which
+    /// started as a fork of this store. Settings and resources stay; ids
+    /// already handed out on either side are not handed out again.
+    pub fn adopt_content(&self, other: &RopeStore) {
+        let snap = other.snapshot();
+        *self.rope.write().unwrap() = snap.rope;
+        *self.frames.write().unwrap() = snap.frames;
+        *self.blocks.write().unwrap() = snap.blocks;
+        *self.lists.write().unwrap() = snap.lists;
+        *self.tables.write().unwrap() = snap.tables;
+        *self.table_cells.write().unwrap() = snap.table_cells;
+        *self.format_runs.write().unwrap() = snap.format_runs;
+        *self.block_images.write().unwrap() = snap.block_images;
+        *self.block_offsets.write().unwrap() = snap.block_offsets;
+        for document in self.documents.write().unwrap().iter_mut() {
+            let (id, current) = document;
+            if let Some(adopted) = snap.documents.get(id) {
+                current.updated_at = adopted.updated_at;
+                current.frames = adopted.frames.clone();
+                current.lists = adopted.lists.clone();
+                current.tables = adopted.tables.clone();
+                current.character_count = adopted.character_count;
+                current.block_count = adopted.block_count;
+            }
+        }
+        let mut counters = self.counters.write().unwrap();
+        for (entity, next) in snap.counters {
+            let counter = counters.entry(entity).or_insert(next);
+            *counter = (*counter).max(next);
+        }
+    }
+
     /// Get-and-increment counter for an entity type.
     pub(crate) fn next_id(&self, entity_name: &str) -> EntityId {
         let mut counters = self.counters.write().unwrap();
diff --git a/crates/frontend/src/app_context.rs b/crates/frontend/src/app_context.rs
index 3607278..d0e98b4 100644
--- a/crates/frontend/src/app_context.rs
+++ b/crates/frontend/src/app_context.rs
@@ -62,6 +62,14 @@ impl AppContext {
         }
     }
 
+    /// The same context over a copy of the data, for work in the background.
+    pub fn fork(&self) -> Self {
+        Self {
+            db_context: self.db_context.fork(),
+            ..self.clone()
+        }
+    }
+
     /// Signal background event-hub threads to stop. Idempotent — the
     /// second call is a no-op because the sender has already been
     /// taken.
diff --git a/crates/public_api/src/document.rs b/crates/public_api/src/document.rs
index 9985a41..c443ab1 100644
--- a/crates/public_api/src/document.rs
+++ b/crates/public_api/src/document.rs
@@ -104,7 +104,7 @@ impl TextDocument {
                 .subscribe(Origin::LongOperation(LOE::Completed), move |event| {
                     let op_id = parse_id_data(&event.data);
                     queue_and_dispatch(&w, |inner| {
-                        inner.finish_import(&op_id);
+                        inner.finish_import(&op_id, true);
                         inner.queue_event(DocumentEvent::LongOperationFinished {
                             operation_id: op_id,
                             success: true,
@@ -121,7 +121,7 @@ impl TextDocument {
                 .subscribe(Origin::LongOperation(LOE::Cancelled), move |event| {
                     let op_id = parse_id_data(&event.data);
                     queue_and_dispatch(&w, |inner| {
-                        inner.finish_import(&op_id);
+                        inner.finish_import(&op_id, false);
                         inner.queue_event(DocumentEvent::LongOperationFinished {
                             operation_id: op_id,
                             success: false,
@@ -137,7 +137,7 @@ impl TextDocument {
                 .subscribe(Origin::LongOperation(LOE::Failed), move |event| {
                     let (op_id, error) = parse_failed_data(&event.data);
                     queue_and_dispatch(&weak, |inner| {
-                        inner.finish_import(&op_id);
+                        inner.finish_import(&op_id, false);
                         inner.queue_event(DocumentEvent::LongOperationFinished {
                             operation_id: op_id,
                             success: false,
@@ -156,9 +156,11 @@ impl TextDocument {
 
     /// What an import's handle calls when the import is over: the document is
     /// up to date by the time the outcome is known.
-    fn catch_up_with_import(&self) -> Box<dyn Fn(&str) + Send> {
+    fn catch_up_with_import(&self) -> crate::operation::FinishedFn {
         let weak = Arc::downgrade(&self.inner);
-        Box::new(move |id| queue_and_dispatch(&weak, |inner| inner.finish_import(id)))
+        Box::new(move |id, completed| {
+            queue_and_dispatch(&weak, |inner| inner.finish_import(id, completed))
+        })
     }
 
     // ── Whole-document content ────────────────────────────────
@@ -203,8 +205,10 @@ impl TextDocument {
         let dto = frontend::document_io::ImportMarkdownDto {
             markdown_text: markdown.into(),
         };
-        let op_id = document_io_commands::import_markdown(&inner.ctx, &dto)?;
-        inner.unfinished_imports.push(op_id.clone());
+        // Built apart, so that nobody sees half of it
+        let imported = inner.ctx.fork();
+        let op_id = document_io_commands::import_markdown(&imported, &dto)?;
+        inner.unfinished_imports.push((op_id.clone(), imported));
         undo_redo_commands::clear_stack(&inner.ctx, inner.stack_id);
         inner.queue_event(DocumentEvent::UndoRedoChanged {
             can_undo: false,
@@ -247,8 +251,10 @@ impl TextDocument {
         let dto = frontend::document_io::ImportHtmlDto {
             html_text: html.into(),
         };
-        let op_id = document_io_commands::import_html(&inner.ctx, &dto)?;
-        inner.unfinished_imports.push(op_id.clone());
+        // Built apart, so that nobody sees half of it
+        let imported = inner.ctx.fork();
+        let op_id = document_io_commands::import_html(&imported, &dto)?;
+        inner.unfinished_imports.push((op_id.clone(), imported));
         undo_redo_commands::clear_stack(&inner.ctx, inner.stack_id);
         inner.queue_event(DocumentEvent::UndoRedoChanged {
             can_undo: false,
@@ -301,7 +307,7 @@ impl TextDocument {
         let dto = frontend::document_io::ExportDocxDto {
             output_path: output_path.into(),
         };
-        let op_id = document_io_commands::export_docx(&inner.ctx, &dto)?;
+        let op_id = document_io_commands::export_docx(&inner.ctx.fork(), &dto)?;
         Ok(Operation::new(
             op_id,
             &inner.ctx,
@@ -316,7 +322,7 @@ impl TextDocument {
                         })
                     })
             }),
-            Box::new(|_| {}),
+            Box::new(|_, _| {}),
         ))
     }
 
diff --git a/crates/public_api/src/inner.rs b/crates/public_api/src/inner.rs
index 57f143d..848635b 100644
--- a/crates/public_api/src/inner.rs
+++ b/crates/public_api/src/inner.rs
@@ -104,8 +104,9 @@ pub(crate) struct TextDocumentInner {
     // Syntax highlighting state (shadow formatting layer).
     pub highlight: Option<HighlightData>,
 
-    // Ids of the imports the rest of this state has yet to catch up with.
-    pub unfinished_imports: Vec<String>,
+    // Imports under way: operation id and the context they build the new
+    // content in, which is taken over once they have completed.
+    pub unfinished_imports: Vec<(String, AppContext)>,
 
     // Holds SubscriptionTokens for LongOperation event bridges. Dropping a
     // token unsubscribes the callback, so these must outlive the document.
@@ -235,17 +236,24 @@ impl TextDocumentInner {
         }
     }
 
-    /// Catch up with a finished import (its thread replaced the content
-    /// behind this state). Does nothing for any other operation, nor twice.
-    pub fn finish_import(&mut self, operation_id: &str) {
+    /// Take over the content of a completed import. Does nothing for any
+    /// other operation, nor twice.
+    pub fn finish_import(&mut self, operation_id: &str, completed: bool) {
         let Some(at) = self
             .unfinished_imports
             .iter()
-            .position(|id| id == operation_id)
+            .position(|(id, _)| id == operation_id)
         else {
             return;
         };
-        self.unfinished_imports.swap_remove(at);
+        let (_, imported) = self.unfinished_imports.swap_remove(at);
+        if !completed {
+            return;
+        }
+        self.ctx
+            .db_context
+            .get_store()
+            .adopt_content(imported.db_context.get_store());
         let availability = self.undo_availability();
         frontend::commands::undo_redo_commands::clear_stack(&self.ctx, self.stack_id);
         self.invalidate_text_cache();
diff --git a/crates/public_api/src/operation.rs b/crates/public_api/src/operation.rs
index 8bfa1e3..c0880a5 100644
--- a/crates/public_api/src/operation.rs
+++ b/crates/public_api/src/operation.rs
@@ -12,8 +12,9 @@ use frontend::common::long_operation::{LongOperationManager, OperationStatus};
 /// Function that polls the long-operation manager for a result.
 type ResultFn<T> = Box<dyn Fn(&AppContext, &str) -> Option<Result<T>> + Send>;
 
-/// Function that brings the document up to date with the finished operation.
-type FinishedFn = Box<dyn Fn(&str) + Send>;
+/// Function that brings the document up to date with the finished operation:
+/// its id, and whether it completed.
+pub(crate) type FinishedFn = Box<dyn Fn(&str, bool) + Send>;
 
 /// Shared state for a single long operation.
 pub(crate) struct OperationState {
@@ -74,7 +75,7 @@ impl<T> Operation<T> {
             }
             mgr.get_operation_status(&self.id)
         };
-        (self.finished_fn)(&self.id);
+        (self.finished_fn)(&self.id, status == Some(OperationStatus::Completed));
         Some(match status {
             Some(OperationStatus::Cancelled) => Err(anyhow!("operation was cancelled")),
             Some(OperationStatus::Failed(error)) => Err(anyhow!(error)),
-- 
2.43.0


From 186507b0b8c5896987640dd8d3edb909bc11a1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:22 +0000
Subject: [PATCH 41/55] fix: incremental highlighting goes on past new blocks,
 and spans may reach past the end

---
 crates/public_api/src/highlight.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/public_api/src/highlight.rs b/crates/public_api/src/highlight.rs
index ac3b79a..6d15054 100644
--- a/crates/public_api/src/highlight.rs
+++ b/crates/public_api/src/highlight.rs
@@ -327,7 +327,7 @@ pub(crate) fn merge_highlight_spans(
                 boundaries.push(frag_end);
 
                 for span in spans {
-                    let span_end = span.start + span.length;
+                    let span_end = span.start.saturating_add(span.length);
                     // Does this span overlap the fragment?
                     if span.start < frag_end && span_end > offset {
                         if span.start > offset && span.start < frag_end {
@@ -356,7 +356,7 @@ pub(crate) fn merge_highlight_spans(
                     let active: Vec<&HighlightSpan> = spans
                         .iter()
                         .filter(|s| {
-                            let s_end = s.start + s.length;
+                            let s_end = s.start.saturating_add(s.length);
                             s.start < sub_end && s_end > sub_start
                         })
                         .collect();
@@ -408,7 +408,7 @@ pub(crate) fn merge_highlight_spans(
                 let active: Vec<&HighlightSpan> = spans
                     .iter()
                     .filter(|s| {
-                        let s_end = s.start + s.length;
+                        let s_end = s.start.saturating_add(s.length);
                         s.start < offset + 1 && s_end > offset
                     })
                     .collect();
@@ -540,7 +540,7 @@ impl TextDocumentInner {
                 .unwrap()
                 .blocks
                 .get(&bid)
-                .map_or(-1, |d| d.state);
+                .map(|d| d.state);
 
             let mut ctx = HighlightContext::new(bid, previous_state, user_data);
             highlighter.highlight_block(text, &mut ctx);
@@ -557,8 +557,9 @@ impl TextDocumentInner {
             );
 
             // If we are past the initial block and the state didn't change,
-            // stop cascading.
-            if i > start_idx && state == old_state {
+            // stop cascading. A block without an earlier state is new: what
+            // follows it was highlighted after another block.
+            if i > start_idx && old_state == Some(state) {
                 break;
             }
         }
-- 
2.43.0


From 0289eb09a6e51e2b730c03f244a1d2990c0d8d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:15 +0000
Subject: [PATCH 42/55] fix: a cancellation cannot come between an import's
 commit and its completion

---
 crates/common/src/long_operation.rs                    | 9 +++++++--
 crates/document_io/src/use_cases/import_html_uc.rs     | 3 ++-
 crates/document_io/src/use_cases/import_markdown_uc.rs | 3 ++-
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/crates/common/src/long_operation.rs b/crates/common/src/long_operation.rs
index a182674..50a16e8 100644
--- a/crates/common/src/long_operation.rs
+++ b/crates/common/src/long_operation.rs
@@ -149,6 +149,9 @@ impl OperationProgress {
 pub trait LongOperation: Send + 'static {
     type Output: Send + Sync + 'static + serde::Serialize;
 
+    /// Run the operation, watching `cancel_flag`. Before a step that cannot be
+    /// taken back, such as a commit, swap the flag to `true`: if it was set the
+    /// operation is cancelled, otherwise it can no longer be.
     fn execute(
         &self,
         progress_callback: Box<dyn Fn(OperationProgress) + Send>,
@@ -196,8 +199,10 @@ impl OperationHandleTrait for OperationHandle {
 
     fn cancel(&self) {
         let mut status = lock_or_recover(&self.status);
-        if matches!(*status, OperationStatus::Running) {
-            self.cancel_flag.store(true, Ordering::Relaxed);
+        // An operation past its point of no return has taken the flag: too late.
+        if matches!(*status, OperationStatus::Running)
+            && !self.cancel_flag.swap(true, Ordering::AcqRel)
+        {
             *status = OperationStatus::Cancelled;
         }
     }
diff --git a/crates/document_io/src/use_cases/import_html_uc.rs b/crates/document_io/src/use_cases/import_html_uc.rs
index 1e6d724..68fa3c4 100644
--- a/crates/document_io/src/use_cases/import_html_uc.rs
+++ b/crates/document_io/src/use_cases/import_html_uc.rs
@@ -422,7 +422,8 @@ impl LongOperation for ImportHtmlUseCase {
         updated_doc.block_count = total_block_count;
         uow.update_document(&updated_doc)?;
 
-        if cancel_flag.load(Ordering::Relaxed) {
+        // From here on the import can no longer be cancelled.
+        if cancel_flag.swap(true, Ordering::AcqRel) {
             uow.rollback()?;
             return Err(anyhow!("Operation was cancelled"));
         }
diff --git a/crates/document_io/src/use_cases/import_markdown_uc.rs b/crates/document_io/src/use_cases/import_markdown_uc.rs
index cb6e719..b9dd958 100644
--- a/crates/document_io/src/use_cases/import_markdown_uc.rs
+++ b/crates/document_io/src/use_cases/import_markdown_uc.rs
@@ -464,7 +464,8 @@ impl LongOperation for ImportMarkdownUseCase {
 
         match result {
             Ok(block_count) => {
-                if cancel_flag.load(Ordering::Relaxed) {
+                // From here on the import can no longer be cancelled.
+                if cancel_flag.swap(true, Ordering::AcqRel) {
                     uow.rollback()?;
                     return Err(anyhow!("Operation was cancelled"));
                 }
-- 
2.43.0


From 654c0770b846d6778c327db2e1ffec178f7da13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:15 +0000
Subject: [PATCH 43/55] fix: Enter in a table cell makes the new paragraph in
 that cell

---
 .../src/use_cases/insert_block_uc.rs          | 28 ++++---------------
 1 file changed, 6 insertions(+), 22 deletions(-)

diff --git a/crates/document_editing/src/use_cases/insert_block_uc.rs b/crates/document_editing/src/use_cases/insert_block_uc.rs
index 6a285cd..583f539 100644
--- a/crates/document_editing/src/use_cases/insert_block_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_block_uc.rs
@@ -175,31 +175,15 @@ fn execute_insert_block(
         fmt_code_language: current_block.fmt_code_language.clone(),
     };
 
-    fn find_owner_frame(
-        uow: &dyn InsertBlockUnitOfWorkTrait,
-        fid: &EntityId,
-        target_block_id: EntityId,
-    ) -> Result<Option<EntityId>> {
-        let f = uow
-            .get_frame(fid)?
-            .ok_or_else(|| anyhow!("Frame not found"))?;
-        for &entry in &f.child_order {
-            if entry > 0 && entry as EntityId == target_block_id {
-                return Ok(Some(*fid));
-            } else if entry < 0 {
-                let sub = (-entry) as EntityId;
-                if let Some(owner) = find_owner_frame(uow, &sub, target_block_id)? {
-                    return Ok(Some(owner));
-                }
-            }
-        }
+    // Among all frames of the document: cell frames are in no child_order.
+    let mut owner_frame_id = frame_id;
+    for fid in &frame_ids {
         let block_ids = uow.get_frame_relationship(fid, &FrameRelationshipField::Blocks)?;
-        if block_ids.contains(&target_block_id) {
-            return Ok(Some(*fid));
+        if block_ids.contains(&current_block.id) {
+            owner_frame_id = *fid;
+            break;
         }
-        Ok(None)
     }
-    let owner_frame_id = find_owner_frame(&**uow, &frame_id, current_block.id)?.unwrap_or(frame_id);
 
     let created_block = uow.create_block(&new_block, owner_frame_id, -1)?;
 
-- 
2.43.0


From ec2d3dc4fa15a0a17eb7e2df0dcdd43a16b31da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:40 +0000
Subject: [PATCH 44/55] fix: table operations keep the grid, positions and
 counts exact

---
 .../src/use_cases/editing_helpers.rs          | 75 ++++++++++++++-----
 .../src/use_cases/insert_fragment_uc.rs       |  4 +-
 .../src/use_cases/insert_table_column_uc.rs   | 26 +++++--
 .../src/use_cases/insert_table_row_uc.rs      | 26 +++++--
 .../src/use_cases/insert_table_uc.rs          |  5 +-
 .../src/use_cases/merge_table_cells_uc.rs     | 28 +++----
 .../src/use_cases/remove_table_column_uc.rs   | 15 ++--
 .../src/use_cases/remove_table_row_uc.rs      | 15 ++--
 .../src/use_cases/remove_table_uc.rs          |  6 +-
 .../src/use_cases/split_table_cell_uc.rs      | 14 ++--
 10 files changed, 143 insertions(+), 71 deletions(-)

diff --git a/crates/document_editing/src/use_cases/editing_helpers.rs b/crates/document_editing/src/use_cases/editing_helpers.rs
index 60b9dc6..cff318c 100644
--- a/crates/document_editing/src/use_cases/editing_helpers.rs
+++ b/crates/document_editing/src/use_cases/editing_helpers.rs
@@ -43,7 +43,8 @@ macro_rules! impl_cell_frame_creator {
 
 pub(crate) use impl_cell_frame_creator;
 
-/// Create a single cell Frame containing one empty Block. The block is
+/// Create a single cell Frame containing one empty Block, inside the anchor
+/// frame of its table if that exists already. The block is
 /// reverse-synced through `rebuild_block_inline_elements` so the legacy
 /// inline_elements bridge sees the conventional single-Empty element
 /// for the cell; the new format_runs / block_images representation is
@@ -51,9 +52,13 @@ pub(crate) use impl_cell_frame_creator;
 pub fn create_cell_frame(
     uow: &mut dyn CellFrameCreator,
     doc_id: EntityId,
+    anchor_frame: Option<EntityId>,
     now: chrono::DateTime<chrono::Utc>,
 ) -> Result<(EntityId, Block)> {
-    let cell_frame = Frame::default();
+    let cell_frame = Frame {
+        parent_frame: anchor_frame,
+        ..Frame::default()
+    };
     let created_frame = uow.cfc_create_frame(&cell_frame, doc_id, -1)?;
 
     let block = Block {
@@ -70,6 +75,16 @@ pub fn create_cell_frame(
     Ok((created_frame.id, created_block))
 }
 
+/// The frame standing for a table in the document flow; its cell frames are
+/// inside it.
+pub fn anchor_frame_of_table(store: &Store, table_id: EntityId) -> Option<EntityId> {
+    let frames = store.frames.read().unwrap();
+    frames
+        .values()
+        .find(|f| f.table == Some(table_id))
+        .map(|f| f.id)
+}
+
 /// Trait for UoW operations needed to compute base position of table cell blocks.
 pub trait CellBlockReader {
     fn cbr_get_frame_relationship(
@@ -78,6 +93,7 @@ pub trait CellBlockReader {
         field: &FrameRelationshipField,
     ) -> Result<Vec<EntityId>>;
     fn cbr_get_block_multi(&self, ids: &[EntityId]) -> Result<Vec<Option<Block>>>;
+    fn cbr_store(&self) -> std::sync::Arc<Store>;
 }
 
 /// Implement `CellBlockReader` for a `Box<dyn UowTrait>` where the UoW trait has the needed methods.
@@ -94,23 +110,26 @@ macro_rules! impl_cell_block_reader {
             fn cbr_get_block_multi(&self, ids: &[EntityId]) -> Result<Vec<Option<Block>>> {
                 (**self).get_block_multi(ids)
             }
+            fn cbr_store(&self) -> std::sync::Arc<common::database::Store> {
+                (**self).store()
+            }
         }
     };
 }
 
 pub(crate) use impl_cell_block_reader;
 
-/// Compute the minimum document_position across all blocks in the given cell frames.
 /// Reassign document_position for all blocks across table cells in row-major order.
-/// Returns the blocks that need updating and the total block count.
+/// Each block takes the length of its text plus one for the boundary after it.
 pub fn reassign_cell_block_positions(
     uow: &dyn CellBlockReader,
     cells: &[common::entities::TableCell],
     base_pos: i64,
     now: chrono::DateTime<chrono::Utc>,
-) -> Result<(Vec<Block>, i64)> {
+) -> Result<Vec<Block>> {
+    let store = uow.cbr_store();
     let mut blocks_to_update: Vec<Block> = Vec::new();
-    let mut running_pos: i64 = 0;
+    let mut running_pos: i64 = base_pos;
     for cell in cells {
         if let Some(cf_id) = cell.cell_frame {
             let block_ids =
@@ -119,35 +138,53 @@ pub fn reassign_cell_block_positions(
             let mut blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
             blocks.sort_by_key(|b| b.document_position);
             for mut block in blocks {
-                block.document_position = base_pos + running_pos;
+                block.document_position = running_pos;
                 block.updated_at = now;
+                running_pos += block_char_length(&block, &store) + 1;
                 blocks_to_update.push(block);
-                running_pos += 1;
             }
         }
     }
-    Ok((blocks_to_update, running_pos))
+    Ok(blocks_to_update)
+}
+
+/// What the cells of a table take up in the document.
+#[derive(Clone, Copy, Default)]
+pub struct TableExtent {
+    /// The minimum document_position across all blocks of the cells.
+    pub base_pos: i64,
+    pub blocks: i64,
+    pub chars: i64,
 }
 
-pub fn compute_table_base_pos(
+impl TableExtent {
+    /// Number of positions: each block is followed by a boundary.
+    pub fn positions(&self) -> i64 {
+        self.blocks + self.chars
+    }
+}
+
+/// Measure the blocks in the given cell frames.
+pub fn measure_table(
     uow: &dyn CellBlockReader,
     cell_frame_ids: &[EntityId],
-) -> Result<i64> {
+) -> Result<TableExtent> {
+    let store = uow.cbr_store();
+    let mut extent = TableExtent::default();
     let mut base_pos: Option<i64> = None;
     for cf_id in cell_frame_ids {
         let block_ids = uow.cbr_get_frame_relationship(cf_id, &FrameRelationshipField::Blocks)?;
         let blocks_opt = uow.cbr_get_block_multi(&block_ids)?;
         for block in blocks_opt.into_iter().flatten() {
-            match base_pos {
-                None => base_pos = Some(block.document_position),
-                Some(bp) if block.document_position < bp => {
-                    base_pos = Some(block.document_position)
-                }
-                _ => {}
-            }
+            extent.blocks += 1;
+            extent.chars += block_char_length(&block, &store);
+            base_pos = Some(base_pos.map_or(block.document_position, |bp| {
+                bp.min(block.document_position)
+            }));
         }
     }
-    Ok(base_pos.unwrap_or(0))
+    extent.base_pos = base_pos.unwrap_or(0);
+    Ok(extent)
 }
 
 /// Returns true for punctuation characters that should break undo merge groups.
diff --git a/crates/document_editing/src/use_cases/insert_fragment_uc.rs b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
index 36a58f3..d8ab6c5 100644
--- a/crates/document_editing/src/use_cases/insert_fragment_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
@@ -503,7 +503,7 @@ fn insert_table_fragment(
         let mut cell_blocks_to_update: Vec<Block> = Vec::new();
 
         for frag_cell in &frag_table.cells {
-            let (cell_frame_id, created_block) = create_cell_frame(uow, doc_id, now)?;
+            let (cell_frame_id, created_block) = create_cell_frame(uow, doc_id, None, now)?;
             let mut this_cell_blocks: CellPayload = Vec::new();
 
             if !frag_cell.blocks.is_empty() {
@@ -1154,7 +1154,7 @@ fn insert_mixed_fragment(
                 let mut this_table_cell_blocks: Vec<Vec<(EntityId, String)>> = Vec::new();
 
                 for frag_cell in &frag_table.cells {
-                    let (cell_frame_id, created_block) = create_cell_frame(uow, doc_id, now)?;
+                    let (cell_frame_id, created_block) = create_cell_frame(uow, doc_id, None, now)?;
                     let mut this_cell_blocks: Vec<(EntityId, String)> = Vec::new();
 
                     if !frag_cell.blocks.is_empty() {
diff --git a/crates/document_editing/src/use_cases/insert_table_column_uc.rs b/crates/document_editing/src/use_cases/insert_table_column_uc.rs
index be81b74..39786a7 100644
--- a/crates/document_editing/src/use_cases/insert_table_column_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_table_column_uc.rs
@@ -1,6 +1,6 @@
 use super::editing_helpers::{
-    CellBlockReader, CellFrameCreator, compute_table_base_pos, create_cell_frame,
-    impl_cell_block_reader, impl_cell_frame_creator, reassign_cell_block_positions,
+    CellBlockReader, CellFrameCreator, anchor_frame_of_table, create_cell_frame,
+    impl_cell_block_reader, impl_cell_frame_creator, measure_table, reassign_cell_block_positions,
 };
 use crate::InsertTableColumnDto;
 use crate::InsertTableColumnResultDto;
@@ -93,9 +93,11 @@ fn execute_insert_table_column(
     // Find base position from existing cell blocks (must be done before new cells are created)
     let existing_cell_frame_ids: Vec<EntityId> =
         cells.iter().filter_map(|c| c.cell_frame).collect();
-    let base_pos = compute_table_base_pos(&*uow, &existing_cell_frame_ids)?;
+    let extent = measure_table(&*uow, &existing_cell_frame_ids)?;
+    let base_pos = extent.base_pos;
 
     let mut cells_to_update: Vec<TableCell> = Vec::new();
+    let mut expanded_cells: Vec<TableCell> = Vec::new();
     for cell in &cells {
         if cell.column >= dto.column_index {
             // Cell starts at or after the insertion point — shift it right
@@ -108,6 +110,7 @@ fn execute_insert_table_column(
             let mut expanded = cell.clone();
             expanded.column_span += 1;
             expanded.updated_at = now;
+            expanded_cells.push(expanded.clone());
             cells_to_update.push(expanded);
         }
     }
@@ -118,9 +121,17 @@ fn execute_insert_table_column(
     // Create new cells for the inserted column (one per row), collecting
     // their blocks so we can mirror them into the rope after the entity
     // graph is in place.
+    let anchor_frame = anchor_frame_of_table(&uow.store(), table_id);
     let mut new_cell_blocks: Vec<Block> = Vec::with_capacity(table.rows as usize);
     for r in 0..table.rows {
-        let (cell_frame_id, created_block) = create_cell_frame(&mut *uow, doc_id, now)?;
+        if expanded_cells
+            .iter()
+            .any(|x| x.row <= r && r < x.row + x.row_span)
+        {
+            continue; // the cell spanning across the insertion point covers this row
+        }
+        let (cell_frame_id, created_block) =
+            create_cell_frame(&mut *uow, doc_id, anchor_frame, now)?;
         new_cell_blocks.push(created_block);
 
         let cell = TableCell {
@@ -177,14 +188,13 @@ fn execute_insert_table_column(
     let cell_frame_ids: Vec<EntityId> = all_cells.iter().filter_map(|c| c.cell_frame).collect();
 
     // Assign positions in row-major order (handles multi-block cells)
-    let (cell_blocks_to_update, _) =
-        reassign_cell_block_positions(&*uow, &all_cells, base_pos, now)?;
+    let cell_blocks_to_update = reassign_cell_block_positions(&*uow, &all_cells, base_pos, now)?;
     if !cell_blocks_to_update.is_empty() {
         uow.update_block_multi(&cell_blocks_to_update)?;
     }
 
     // Shift non-table blocks after the table
-    let added_cells = table.rows;
+    let added_cells = new_cell_blocks.len() as i64;
     let frame_ids = uow.get_document_relationship(&doc_id, &DocumentRelationshipField::Frames)?;
     let cell_frame_set: std::collections::HashSet<EntityId> = cell_frame_ids.into_iter().collect();
     let mut shifted_blocks: Vec<Block> = Vec::new();
@@ -212,7 +222,7 @@ fn execute_insert_table_column(
 
     // Update Document stats
     let mut updated_doc = document.clone();
-    updated_doc.block_count += table.rows;
+    updated_doc.block_count += added_cells;
     updated_doc.updated_at = now;
     uow.update_document(&updated_doc)?;
 
diff --git a/crates/document_editing/src/use_cases/insert_table_row_uc.rs b/crates/document_editing/src/use_cases/insert_table_row_uc.rs
index a7b2daa..e80c087 100644
--- a/crates/document_editing/src/use_cases/insert_table_row_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_table_row_uc.rs
@@ -1,6 +1,6 @@
 use super::editing_helpers::{
-    CellBlockReader, CellFrameCreator, compute_table_base_pos, create_cell_frame,
-    impl_cell_block_reader, impl_cell_frame_creator, reassign_cell_block_positions,
+    CellBlockReader, CellFrameCreator, anchor_frame_of_table, create_cell_frame,
+    impl_cell_block_reader, impl_cell_frame_creator, measure_table, reassign_cell_block_positions,
 };
 use crate::InsertTableRowDto;
 use crate::InsertTableRowResultDto;
@@ -93,9 +93,11 @@ fn execute_insert_table_row(
     // Find base position from existing cell blocks (must be done before new cells are created)
     let existing_cell_frame_ids: Vec<EntityId> =
         cells.iter().filter_map(|c| c.cell_frame).collect();
-    let base_pos = compute_table_base_pos(&*uow, &existing_cell_frame_ids)?;
+    let extent = measure_table(&*uow, &existing_cell_frame_ids)?;
+    let base_pos = extent.base_pos;
 
     let mut cells_to_update: Vec<TableCell> = Vec::new();
+    let mut expanded_cells: Vec<TableCell> = Vec::new();
     for cell in &cells {
         if cell.row >= dto.row_index {
             // Cell starts at or after the insertion point — shift it down
@@ -108,6 +110,7 @@ fn execute_insert_table_row(
             let mut expanded = cell.clone();
             expanded.row_span += 1;
             expanded.updated_at = now;
+            expanded_cells.push(expanded.clone());
             cells_to_update.push(expanded);
         }
     }
@@ -118,9 +121,17 @@ fn execute_insert_table_row(
     // Create new cells for the inserted row, collecting their blocks
     // so we can mirror them into the global rope after the entity
     // graph is in place.
+    let anchor_frame = anchor_frame_of_table(&uow.store(), table_id);
     let mut new_cell_blocks: Vec<Block> = Vec::with_capacity(table.columns as usize);
     for c in 0..table.columns {
-        let (cell_frame_id, created_block) = create_cell_frame(&mut *uow, doc_id, now)?;
+        if expanded_cells
+            .iter()
+            .any(|x| x.column <= c && c < x.column + x.column_span)
+        {
+            continue; // the cell spanning across the insertion point covers this column
+        }
+        let (cell_frame_id, created_block) =
+            create_cell_frame(&mut *uow, doc_id, anchor_frame, now)?;
         new_cell_blocks.push(created_block);
 
         let cell = TableCell {
@@ -175,14 +186,13 @@ fn execute_insert_table_row(
     let cell_frame_ids: Vec<EntityId> = all_cells.iter().filter_map(|c| c.cell_frame).collect();
 
     // Assign positions in row-major order (handles multi-block cells)
-    let (cell_blocks_to_update, _) =
-        reassign_cell_block_positions(&*uow, &all_cells, base_pos, now)?;
+    let cell_blocks_to_update = reassign_cell_block_positions(&*uow, &all_cells, base_pos, now)?;
     if !cell_blocks_to_update.is_empty() {
         uow.update_block_multi(&cell_blocks_to_update)?;
     }
 
     // Shift non-table blocks after the table
-    let added_cells = table.columns;
+    let added_cells = new_cell_blocks.len() as i64;
     let frame_ids = uow.get_document_relationship(&doc_id, &DocumentRelationshipField::Frames)?;
     let cell_frame_set: std::collections::HashSet<EntityId> = cell_frame_ids.into_iter().collect();
     let mut shifted_blocks: Vec<Block> = Vec::new();
@@ -210,7 +220,7 @@ fn execute_insert_table_row(
 
     // Update Document stats
     let mut updated_doc = document.clone();
-    updated_doc.block_count += table.columns;
+    updated_doc.block_count += added_cells;
     updated_doc.updated_at = now;
     uow.update_document(&updated_doc)?;
 
diff --git a/crates/document_editing/src/use_cases/insert_table_uc.rs b/crates/document_editing/src/use_cases/insert_table_uc.rs
index 5b63775..6793a22 100644
--- a/crates/document_editing/src/use_cases/insert_table_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_table_uc.rs
@@ -291,7 +291,7 @@ fn execute_insert_table(
     for r in 0..dto.rows {
         for c in 0..dto.columns {
             // Create a cell frame with an empty block
-            let (cell_frame_id, created_block) = create_cell_frame(uow, doc_id, now)?;
+            let (cell_frame_id, created_block) = create_cell_frame(uow, doc_id, None, now)?;
 
             cell_blocks.push(created_block);
             cell_frame_ids.push(cell_frame_id);
@@ -487,7 +487,8 @@ fn execute_insert_table(
     updated_doc.updated_at = now;
     uow.update_document(&updated_doc)?;
 
-    let new_position = insert_pos;
+    // The cursor moves into the first cell
+    let new_position = cell_start_pos;
 
     Ok((
         InsertTableResultDto {
diff --git a/crates/document_editing/src/use_cases/merge_table_cells_uc.rs b/crates/document_editing/src/use_cases/merge_table_cells_uc.rs
index 84d5215..c934ebc 100644
--- a/crates/document_editing/src/use_cases/merge_table_cells_uc.rs
+++ b/crates/document_editing/src/use_cases/merge_table_cells_uc.rs
@@ -1,5 +1,5 @@
 use super::editing_helpers::{
-    CellBlockReader, compute_table_base_pos, impl_cell_block_reader, reassign_cell_block_positions,
+    CellBlockReader, impl_cell_block_reader, measure_table, reassign_cell_block_positions,
 };
 use crate::MergeTableCellsDto;
 use crate::MergeTableCellsResultDto;
@@ -107,18 +107,18 @@ fn execute_merge_table_cells(
     let cells_opt = uow.get_table_cell_multi(&cell_ids)?;
     let cells: Vec<TableCell> = cells_opt.into_iter().flatten().collect();
 
-    // Identify cells in the merge range
+    // Identify cells that cover any part of the merge range
     let cells_in_range: Vec<&TableCell> = cells
         .iter()
         .filter(|c| {
-            c.row >= dto.start_row
+            c.row + c.row_span > dto.start_row
                 && c.row <= dto.end_row
-                && c.column >= dto.start_column
+                && c.column + c.column_span > dto.start_column
                 && c.column <= dto.end_column
         })
         .collect();
 
-    // Validate: no cell in the range already has row_span > 1 or column_span > 1
+    // Validate: no cell reaching into the range already has row_span > 1 or column_span > 1
     for cell in &cells_in_range {
         if cell.row_span > 1 || cell.column_span > 1 {
             return Err(anyhow!(
@@ -154,12 +154,11 @@ fn execute_merge_table_cells(
         .copied()
         .collect();
 
-    let removed_cell_count = cells_to_remove.len() as i64;
-
     // Find base_pos from existing cell blocks BEFORE any mutation
     let existing_cell_frame_ids: Vec<EntityId> =
         cells.iter().filter_map(|c| c.cell_frame).collect();
-    let base_pos = compute_table_base_pos(&*uow, &existing_cell_frame_ids)?;
+    let extent = measure_table(&*uow, &existing_cell_frame_ids)?;
+    let base_pos = extent.base_pos;
 
     // Remove the other cells' frames (cascade removes blocks/elements) and the cell entities.
     // Before removal, collect the block IDs owned by those cell frames so we
@@ -209,13 +208,15 @@ fn execute_merge_table_cells(
         .collect();
 
     // Assign positions in row-major order (handles multi-block cells)
-    let (cell_blocks_to_update, _) =
+    let cell_blocks_to_update =
         reassign_cell_block_positions(&*uow, &remaining_cells, base_pos, now)?;
     if !cell_blocks_to_update.is_empty() {
         uow.update_block_multi(&cell_blocks_to_update)?;
     }
 
-    // Shift non-table blocks after the table (reduce by number of removed cells)
+    // Shift non-table blocks after the table (reduce by what the removed cells took up)
+    let remaining_extent = measure_table(&*uow, &remaining_frame_ids)?;
+    let removed_positions = extent.positions() - remaining_extent.positions();
     let frame_ids = uow.get_document_relationship(&doc_id, &DocumentRelationshipField::Frames)?;
     let cell_frame_set: std::collections::HashSet<EntityId> =
         remaining_frame_ids.into_iter().collect();
@@ -232,7 +233,7 @@ fn execute_merge_table_cells(
         for block in blocks_opt.into_iter().flatten() {
             if block.document_position >= base_pos {
                 let mut shifted = block;
-                shifted.document_position -= removed_cell_count;
+                shifted.document_position -= removed_positions;
                 shifted.updated_at = now;
                 shifted_blocks.push(shifted);
             }
@@ -242,9 +243,10 @@ fn execute_merge_table_cells(
         uow.update_block_multi(&shifted_blocks)?;
     }
 
-    // Update Document.block_count
+    // Update Document stats
     let mut updated_doc = document.clone();
-    updated_doc.block_count -= removed_cell_count;
+    updated_doc.block_count -= extent.blocks - remaining_extent.blocks;
+    updated_doc.character_count -= extent.chars - remaining_extent.chars;
     updated_doc.updated_at = now;
     uow.update_document(&updated_doc)?;
 
diff --git a/crates/document_editing/src/use_cases/remove_table_column_uc.rs b/crates/document_editing/src/use_cases/remove_table_column_uc.rs
index 5651273..4b684d2 100644
--- a/crates/document_editing/src/use_cases/remove_table_column_uc.rs
+++ b/crates/document_editing/src/use_cases/remove_table_column_uc.rs
@@ -1,5 +1,5 @@
 use super::editing_helpers::{
-    CellBlockReader, compute_table_base_pos, impl_cell_block_reader, reassign_cell_block_positions,
+    CellBlockReader, impl_cell_block_reader, measure_table, reassign_cell_block_positions,
 };
 use crate::RemoveTableColumnDto;
 use crate::RemoveTableColumnResultDto;
@@ -105,7 +105,8 @@ fn execute_remove_table_column(
     // Compute base_pos from ALL cells BEFORE any removal, so the table starting
     // position is correct even when the first column is being removed.
     let all_cell_frame_ids: Vec<EntityId> = cells.iter().filter_map(|c| c.cell_frame).collect();
-    let base_pos = compute_table_base_pos(&*uow, &all_cell_frame_ids)?;
+    let extent = measure_table(&*uow, &all_cell_frame_ids)?;
+    let base_pos = extent.base_pos;
 
     for cell in &cells {
         if cell.column == column_index && cell.column_span == 1 {
@@ -190,14 +191,15 @@ fn execute_remove_table_column(
         .collect();
 
     // Assign positions in row-major order (handles multi-block cells)
-    let (cell_blocks_to_update, _) =
+    let cell_blocks_to_update =
         reassign_cell_block_positions(&*uow, &remaining_cells, base_pos, now)?;
     if !cell_blocks_to_update.is_empty() {
         uow.update_block_multi(&cell_blocks_to_update)?;
     }
 
     // Shift non-table blocks after the table
-    let removed_cells = cells_to_remove.len() as i64;
+    let remaining_extent = measure_table(&*uow, &remaining_cell_frame_ids)?;
+    let removed_positions = extent.positions() - remaining_extent.positions();
     let frame_ids = uow.get_document_relationship(&doc_id, &DocumentRelationshipField::Frames)?;
     let cell_frame_set: std::collections::HashSet<EntityId> =
         remaining_cell_frame_ids.into_iter().collect();
@@ -214,7 +216,7 @@ fn execute_remove_table_column(
         for block in blocks_opt.into_iter().flatten() {
             if block.document_position >= base_pos {
                 let mut shifted = block;
-                shifted.document_position -= removed_cells;
+                shifted.document_position -= removed_positions;
                 shifted.updated_at = now;
                 shifted_blocks.push(shifted);
             }
@@ -226,7 +228,8 @@ fn execute_remove_table_column(
 
     // Update Document.block_count
     let mut updated_doc = document.clone();
-    updated_doc.block_count -= removed_cells;
+    updated_doc.block_count -= extent.blocks - remaining_extent.blocks;
+    updated_doc.character_count -= extent.chars - remaining_extent.chars;
     updated_doc.updated_at = now;
     uow.update_document(&updated_doc)?;
 
diff --git a/crates/document_editing/src/use_cases/remove_table_row_uc.rs b/crates/document_editing/src/use_cases/remove_table_row_uc.rs
index 6852055..7fbe4ea 100644
--- a/crates/document_editing/src/use_cases/remove_table_row_uc.rs
+++ b/crates/document_editing/src/use_cases/remove_table_row_uc.rs
@@ -1,5 +1,5 @@
 use super::editing_helpers::{
-    CellBlockReader, compute_table_base_pos, impl_cell_block_reader, reassign_cell_block_positions,
+    CellBlockReader, impl_cell_block_reader, measure_table, reassign_cell_block_positions,
 };
 use crate::RemoveTableRowDto;
 use crate::RemoveTableRowResultDto;
@@ -103,7 +103,8 @@ fn execute_remove_table_row(
     // Compute base_pos from ALL cells BEFORE any removal, so the table starting
     // position is correct even when the first row is being removed.
     let all_cell_frame_ids: Vec<EntityId> = cells.iter().filter_map(|c| c.cell_frame).collect();
-    let base_pos = compute_table_base_pos(&*uow, &all_cell_frame_ids)?;
+    let extent = measure_table(&*uow, &all_cell_frame_ids)?;
+    let base_pos = extent.base_pos;
 
     for cell in &cells {
         if cell.row == dto.row_index && cell.row_span == 1 {
@@ -183,14 +184,15 @@ fn execute_remove_table_row(
         .collect();
 
     // Assign positions in row-major order (handles multi-block cells)
-    let (cell_blocks_to_update, _) =
+    let cell_blocks_to_update =
         reassign_cell_block_positions(&*uow, &remaining_cells, base_pos, now)?;
     if !cell_blocks_to_update.is_empty() {
         uow.update_block_multi(&cell_blocks_to_update)?;
     }
 
     // Shift non-table blocks after the table
-    let removed_cells = cells_to_remove.len() as i64;
+    let remaining_extent = measure_table(&*uow, &remaining_frame_ids)?;
+    let removed_positions = extent.positions() - remaining_extent.positions();
     let frame_ids = uow.get_document_relationship(&doc_id, &DocumentRelationshipField::Frames)?;
     let cell_frame_set: std::collections::HashSet<EntityId> =
         remaining_frame_ids.into_iter().collect();
@@ -207,7 +209,7 @@ fn execute_remove_table_row(
         for block in blocks_opt.into_iter().flatten() {
             if block.document_position >= base_pos {
                 let mut shifted = block;
-                shifted.document_position -= removed_cells;
+                shifted.document_position -= removed_positions;
                 shifted.updated_at = now;
                 shifted_blocks.push(shifted);
             }
@@ -219,7 +221,8 @@ fn execute_remove_table_row(
 
     // Update Document stats
     let mut updated_doc = document.clone();
-    updated_doc.block_count -= removed_cells;
+    updated_doc.block_count -= extent.blocks - remaining_extent.blocks;
+    updated_doc.character_count -= extent.chars - remaining_extent.chars;
     updated_doc.updated_at = now;
     uow.update_document(&updated_doc)?;
 
diff --git a/crates/document_editing/src/use_cases/remove_table_uc.rs b/crates/document_editing/src/use_cases/remove_table_uc.rs
index 0abf111..79cf562 100644
--- a/crates/document_editing/src/use_cases/remove_table_uc.rs
+++ b/crates/document_editing/src/use_cases/remove_table_uc.rs
@@ -1,6 +1,7 @@
 use crate::RemoveTableDto;
 use anyhow::{Result, anyhow};
 use common::database::CommandUnitOfWork;
+use common::database::rope_helpers::block_char_length;
 use common::direct_access::document::document_repository::DocumentRelationshipField;
 use common::direct_access::frame::frame_repository::FrameRelationshipField;
 use common::direct_access::root::root_repository::RootRelationshipField;
@@ -82,6 +83,7 @@ fn execute_remove_table(
     // remember each cell-block id so we can detach them from the
     // global rope before the entity cascade below.
     let mut total_cell_blocks: i64 = 0;
+    let mut total_cell_chars: i64 = 0;
     let mut min_cell_position: Option<i64> = None;
     let mut cell_block_ids: Vec<EntityId> = Vec::new();
     for fid in &cell_frame_ids {
@@ -90,6 +92,7 @@ fn execute_remove_table(
             let blocks_opt = uow.get_block_multi(&block_ids)?;
             for block in blocks_opt.into_iter().flatten() {
                 total_cell_blocks += 1;
+                total_cell_chars += block_char_length(&block, &uow.store());
                 cell_block_ids.push(block.id);
                 match min_cell_position {
                     None => min_cell_position = Some(block.document_position),
@@ -167,7 +170,7 @@ fn execute_remove_table(
                 for block in blocks_opt.into_iter().flatten() {
                     if block.document_position >= table_start_pos {
                         let mut shifted = block;
-                        shifted.document_position -= total_cell_blocks;
+                        shifted.document_position -= total_cell_blocks + total_cell_chars;
                         shifted.updated_at = now;
                         blocks_to_shift.push(shifted);
                     }
@@ -182,6 +185,7 @@ fn execute_remove_table(
     // Update Document stats
     let mut updated_doc = document.clone();
     updated_doc.block_count -= total_cell_blocks;
+    updated_doc.character_count -= total_cell_chars;
     updated_doc.updated_at = now;
     uow.update_document(&updated_doc)?;
 
diff --git a/crates/document_editing/src/use_cases/split_table_cell_uc.rs b/crates/document_editing/src/use_cases/split_table_cell_uc.rs
index 26ed3b3..3b58cc6 100644
--- a/crates/document_editing/src/use_cases/split_table_cell_uc.rs
+++ b/crates/document_editing/src/use_cases/split_table_cell_uc.rs
@@ -1,6 +1,6 @@
 use super::editing_helpers::{
-    CellBlockReader, CellFrameCreator, compute_table_base_pos, create_cell_frame,
-    impl_cell_block_reader, impl_cell_frame_creator, reassign_cell_block_positions,
+    CellBlockReader, CellFrameCreator, anchor_frame_of_table, create_cell_frame,
+    impl_cell_block_reader, impl_cell_frame_creator, measure_table, reassign_cell_block_positions,
 };
 use crate::SplitTableCellDto;
 use crate::SplitTableCellResultDto;
@@ -129,7 +129,8 @@ fn execute_split_table_cell(
     // Find base position from existing cell blocks
     let existing_cell_frame_ids: Vec<EntityId> =
         cells.iter().filter_map(|c| c.cell_frame).collect();
-    let base_pos = compute_table_base_pos(&*uow, &existing_cell_frame_ids)?;
+    let extent = measure_table(&*uow, &existing_cell_frame_ids)?;
+    let base_pos = extent.base_pos;
 
     // Calculate sub-cell spans
     let base_row_span = cell.row_span / dto.split_rows;
@@ -167,9 +168,11 @@ fn execute_split_table_cell(
     // Create new cells for remaining sub-cell positions, collecting
     // their blocks so we can mirror them into the rope after the
     // entity graph is in place.
+    let anchor_frame = anchor_frame_of_table(&uow.store(), table_id);
     let mut new_cell_blocks: Vec<Block> = Vec::with_capacity(sub_cells.len().saturating_sub(1));
     for &(r, c, rs, cs) in &sub_cells[1..] {
-        let (cell_frame_id, created_block) = create_cell_frame(&mut *uow, doc_id, now)?;
+        let (cell_frame_id, created_block) =
+            create_cell_frame(&mut *uow, doc_id, anchor_frame, now)?;
         new_cell_blocks.push(created_block);
 
         let new_cell = TableCell {
@@ -218,8 +221,7 @@ fn execute_split_table_cell(
 
     let cell_frame_ids: Vec<EntityId> = all_cells.iter().filter_map(|c| c.cell_frame).collect();
 
-    let (cell_blocks_to_update, _) =
-        reassign_cell_block_positions(&*uow, &all_cells, base_pos, now)?;
+    let cell_blocks_to_update = reassign_cell_block_positions(&*uow, &all_cells, base_pos, now)?;
     if !cell_blocks_to_update.is_empty() {
         uow.update_block_multi(&cell_blocks_to_update)?;
     }
-- 
2.43.0


From ada6d1ebf789c460500e4fe8d250f79b000de9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:40 +0000
Subject: [PATCH 45/55] fix: table operations keep cursors with their text and
 report the change

---
 crates/public_api/src/cursor.rs | 146 ++++++++++++--------------------
 crates/public_api/src/inner.rs  |  95 +++++++++++++++++++++
 2 files changed, 148 insertions(+), 93 deletions(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index 632f26b..38225b6 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -829,8 +829,7 @@ impl TextCursor {
     /// The cursor moves into the first cell of the table.
     /// Returns a handle to the created table.
     pub fn insert_table(&self, rows: usize, columns: usize) -> Result<TextTable> {
-        let (table_id, queued) = {
-            let mut inner = self.doc.lock();
+        let table_id = self.change_table(|inner| {
             let (pos, anchor) = self.read_cursor();
             let dto = frontend::document_editing::InsertTableDto {
                 position: to_i64(pos),
@@ -840,28 +839,11 @@ impl TextCursor {
             };
             let result =
                 document_editing_commands::insert_table(&inner.ctx, Some(inner.stack_id), &dto)?;
-            let new_pos = to_usize(result.new_position);
-            let table_id = to_usize(result.table_id);
-            inner.adjust_cursors(pos.min(anchor), 0, new_pos - pos.min(anchor));
-            {
-                let mut d = self.data.lock();
-                d.position = new_pos;
-                d.anchor = new_pos;
-            }
-            inner.modified = true;
-            inner.invalidate_text_cache();
-            inner.rehighlight_affected(pos.min(anchor));
-            inner.queue_event(DocumentEvent::ContentsChanged {
-                position: pos.min(anchor),
-                chars_removed: 0,
-                chars_added: new_pos - pos.min(anchor),
-                blocks_affected: 1,
-            });
-            inner.check_block_count_changed();
-            inner.check_flow_changed();
-            (table_id, self.queue_undo_redo_event(&mut inner))
-        };
-        crate::inner::dispatch_queued_events(queued);
+            Ok((
+                to_usize(result.table_id),
+                Some(to_usize(result.new_position)),
+            ))
+        })?;
         Ok(TextTable {
             doc: self.doc.clone(),
             table_id,
@@ -915,99 +897,91 @@ impl TextCursor {
 
     // ── Table structure mutations (explicit-ID) ──────────
 
-    /// Remove a table from the document by its ID.
-    pub fn remove_table(&self, table_id: usize) -> Result<()> {
-        let queued = {
+    /// Run a command that changes a table's structure, and bring cursors and
+    /// listeners up to date with it. The command may also say where this
+    /// cursor goes; every other one stays with the text it is at.
+    fn change_table<T>(
+        &self,
+        command: impl FnOnce(&TextDocumentInner) -> Result<(T, Option<usize>)>,
+    ) -> Result<T> {
+        let (result, queued) = {
             let mut inner = self.doc.lock();
-            let dto = frontend::document_editing::RemoveTableDto {
-                table_id: to_i64(table_id),
-            };
-            document_editing_commands::remove_table(&inner.ctx, Some(inner.stack_id), &dto)?;
+            let before = inner.block_extents();
+            let (result, new_pos) = command(&inner)?;
+            inner.follow_block_moves(&before);
+            if let Some(new_pos) = new_pos {
+                let mut d = self.data.lock();
+                d.position = new_pos;
+                d.anchor = new_pos;
+            }
             inner.modified = true;
             inner.invalidate_text_cache();
             inner.rehighlight_all();
             inner.check_block_count_changed();
             inner.check_flow_changed();
-            self.queue_undo_redo_event(&mut inner)
+            (result, self.queue_undo_redo_event(&mut inner))
         };
         crate::inner::dispatch_queued_events(queued);
-        Ok(())
+        Ok(result)
+    }
+
+    /// Remove a table from the document by its ID.
+    pub fn remove_table(&self, table_id: usize) -> Result<()> {
+        self.change_table(|inner| {
+            let dto = frontend::document_editing::RemoveTableDto {
+                table_id: to_i64(table_id),
+            };
+            document_editing_commands::remove_table(&inner.ctx, Some(inner.stack_id), &dto)?;
+            Ok(((), None))
+        })
     }
 
     /// Insert a row into a table at the given index.
     pub fn insert_table_row(&self, table_id: usize, row_index: usize) -> Result<()> {
-        let queued = {
-            let mut inner = self.doc.lock();
+        self.change_table(|inner| {
             let dto = frontend::document_editing::InsertTableRowDto {
                 table_id: to_i64(table_id),
                 row_index: to_i64(row_index),
             };
             document_editing_commands::insert_table_row(&inner.ctx, Some(inner.stack_id), &dto)?;
-            inner.modified = true;
-            inner.invalidate_text_cache();
-            inner.rehighlight_all();
-            inner.check_block_count_changed();
-            self.queue_undo_redo_event(&mut inner)
-        };
-        crate::inner::dispatch_queued_events(queued);
-        Ok(())
+            Ok(((), None))
+        })
     }
 
     /// Insert a column into a table at the given index.
     pub fn insert_table_column(&self, table_id: usize, column_index: usize) -> Result<()> {
-        let queued = {
-            let mut inner = self.doc.lock();
+        self.change_table(|inner| {
             let dto = frontend::document_editing::InsertTableColumnDto {
                 table_id: to_i64(table_id),
                 column_index: to_i64(column_index),
             };
             document_editing_commands::insert_table_column(&inner.ctx, Some(inner.stack_id), &dto)?;
-            inner.modified = true;
-            inner.invalidate_text_cache();
-            inner.rehighlight_all();
-            inner.check_block_count_changed();
-            self.queue_undo_redo_event(&mut inner)
-        };
-        crate::inner::dispatch_queued_events(queued);
-        Ok(())
+            Ok(((), None))
+        })
     }
 
     /// Remove a row from a table. Fails if only one row remains.
     pub fn remove_table_row(&self, table_id: usize, row_index: usize) -> Result<()> {
-        let queued = {
-            let mut inner = self.doc.lock();
+        self.change_table(|inner| {
             let dto = frontend::document_editing::RemoveTableRowDto {
                 table_id: to_i64(table_id),
                 row_index: to_i64(row_index),
             };
             document_editing_commands::remove_table_row(&inner.ctx, Some(inner.stack_id), &dto)?;
-            inner.modified = true;
-            inner.invalidate_text_cache();
-            inner.rehighlight_all();
-            inner.check_block_count_changed();
-            self.queue_undo_redo_event(&mut inner)
-        };
-        crate::inner::dispatch_queued_events(queued);
-        Ok(())
+            Ok(((), None))
+        })
     }
 
     /// Remove a column from a table. Fails if only one column remains.
     pub fn remove_table_column(&self, table_id: usize, column_index: usize) -> Result<()> {
-        let queued = {
-            let mut inner = self.doc.lock();
+        self.change_table(|inner| {
             let dto = frontend::document_editing::RemoveTableColumnDto {
                 table_id: to_i64(table_id),
                 column_index: to_i64(column_index),
             };
             document_editing_commands::remove_table_column(&inner.ctx, Some(inner.stack_id), &dto)?;
-            inner.modified = true;
-            inner.invalidate_text_cache();
-            inner.rehighlight_all();
-            inner.check_block_count_changed();
-            self.queue_undo_redo_event(&mut inner)
-        };
-        crate::inner::dispatch_queued_events(queued);
-        Ok(())
+            Ok(((), None))
+        })
     }
 
     /// Merge a rectangular range of cells within a table.
@@ -1019,8 +993,7 @@ impl TextCursor {
         end_row: usize,
         end_column: usize,
     ) -> Result<()> {
-        let queued = {
-            let mut inner = self.doc.lock();
+        self.change_table(|inner| {
             let dto = frontend::document_editing::MergeTableCellsDto {
                 table_id: to_i64(table_id),
                 start_row: to_i64(start_row),
@@ -1029,14 +1002,8 @@ impl TextCursor {
                 end_column: to_i64(end_column),
             };
             document_editing_commands::merge_table_cells(&inner.ctx, Some(inner.stack_id), &dto)?;
-            inner.modified = true;
-            inner.invalidate_text_cache();
-            inner.rehighlight_all();
-            inner.check_block_count_changed();
-            self.queue_undo_redo_event(&mut inner)
-        };
-        crate::inner::dispatch_queued_events(queued);
-        Ok(())
+            Ok(((), None))
+        })
     }
 
     /// Split a previously merged cell.
@@ -1046,22 +1013,15 @@ impl TextCursor {
         split_rows: usize,
         split_columns: usize,
     ) -> Result<()> {
-        let queued = {
-            let mut inner = self.doc.lock();
+        self.change_table(|inner| {
             let dto = frontend::document_editing::SplitTableCellDto {
                 cell_id: to_i64(cell_id),
                 split_rows: to_i64(split_rows),
                 split_columns: to_i64(split_columns),
             };
             document_editing_commands::split_table_cell(&inner.ctx, Some(inner.stack_id), &dto)?;
-            inner.modified = true;
-            inner.invalidate_text_cache();
-            inner.rehighlight_all();
-            inner.check_block_count_changed();
-            self.queue_undo_redo_event(&mut inner)
-        };
-        crate::inner::dispatch_queued_events(queued);
-        Ok(())
+            Ok(((), None))
+        })
     }
 
     // ── Table formatting (explicit-ID) ───────────────────
diff --git a/crates/public_api/src/inner.rs b/crates/public_api/src/inner.rs
index 848635b..3c4d1e4 100644
--- a/crates/public_api/src/inner.rs
+++ b/crates/public_api/src/inner.rs
@@ -137,6 +137,94 @@ impl TextDocumentInner {
         }
     }
 
+    /// Where each block is, in document order.
+    pub fn block_extents(&self) -> Vec<BlockExtent> {
+        let store = self.ctx.db_context.get_store();
+        let mut blocks =
+            frontend::commands::block_commands::get_all_block(&self.ctx).unwrap_or_default();
+        refresh_block_positions(&mut blocks, store);
+        let mut extents: Vec<BlockExtent> = blocks
+            .into_iter()
+            .map(|b| BlockExtent {
+                id: b.id,
+                start: crate::convert::to_usize(b.document_position),
+                length: crate::convert::to_usize(
+                    common::database::rope_helpers::block_char_length(&b.into(), store),
+                ),
+            })
+            .collect();
+        extents.sort_by_key(|b| b.start);
+        extents
+    }
+
+    /// After whole blocks were added, removed or moved: keep every cursor in
+    /// the block it was in, and queue a `ContentsChanged` event for the part
+    /// of the document between the first and the last difference. A cursor
+    /// whose block is gone moves to the end of the last block before it that
+    /// is left.
+    pub fn follow_block_moves(&mut self, before: &[BlockExtent]) {
+        let after = self.block_extents();
+        let new_start: HashMap<EntityId, usize> = after.iter().map(|b| (b.id, b.start)).collect();
+        let follow = |pos: usize| {
+            let index = before.partition_point(|b| b.start <= pos);
+            let reached = &before[..index];
+            reached
+                .iter()
+                .rev()
+                .find_map(|b| {
+                    let start = new_start.get(&b.id)?;
+                    Some(start + (pos - b.start).min(b.length))
+                })
+                .unwrap_or(0)
+        };
+        self.prune_dead_cursors();
+        for weak in &self.cursors {
+            if let Some(cursor) = weak.upgrade() {
+                let mut data = cursor.lock();
+                data.position = follow(data.position);
+                data.anchor = follow(data.anchor);
+                data.cell_selection_override = None;
+            }
+        }
+
+        let same = |(b, a): &(&BlockExtent, &BlockExtent)| b.id == a.id && b.length == a.length;
+        let prefix = before.iter().zip(&after).take_while(same).count();
+        let (old, new) = (&before[prefix..], &after[prefix..]);
+        let suffix = old
+            .iter()
+            .rev()
+            .zip(new.iter().rev())
+            .take_while(same)
+            .count();
+        let (old, new) = (&old[..old.len() - suffix], &new[..new.len() - suffix]);
+        if old.is_empty() && new.is_empty() {
+            return;
+        }
+        // Each block counts with the boundary after it, or at the end of the
+        // document with the one before it.
+        let first = prefix.checked_sub(1).map(|i| &before[i]);
+        let position = match (suffix, first) {
+            (0, Some(b)) => b.start + b.length,
+            (_, Some(b)) => b.start + b.length + 1,
+            (_, None) => 0,
+        };
+        let extent = |blocks: &[BlockExtent]| {
+            let sum: usize = blocks.iter().map(|b| b.length + 1).sum();
+            if suffix == 0 && prefix == 0 {
+                sum.saturating_sub(1)
+            } else {
+                sum
+            }
+        };
+        let event = DocumentEvent::ContentsChanged {
+            position,
+            chars_removed: extent(old),
+            chars_added: extent(new),
+            blocks_affected: old.len().max(new.len()),
+        };
+        self.queue_event(event);
+    }
+
     /// Bring every tracked cursor back inside the document.
     ///
     /// Called while the document lock is held, after the whole content was
@@ -476,6 +564,13 @@ impl Drop for TextDocumentInner {
     }
 }
 
+/// The positions a block takes up.
+pub(crate) struct BlockExtent {
+    id: EntityId,
+    start: usize,
+    length: usize,
+}
+
 /// Dispatch queued events outside the lock.
 ///
 /// Call this after releasing the document mutex to avoid deadlocks
-- 
2.43.0


From 6b63ec6b52845b5b9636aedf3019d5e43d65a913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:01 +0000
Subject: [PATCH 46/55] fix: deletions, images and lists in documents with
 tables act on the right blocks

---
 .../src/units_of_work/insert_frame_uow.rs     |   1 +
 .../src/use_cases/create_list_uc.rs           |  15 +-
 .../src/use_cases/delete_text_uc.rs           | 145 +++++++++---------
 .../src/use_cases/insert_frame_uc.rs          |  64 +++++---
 .../src/use_cases/insert_image_uc.rs          |  15 +-
 .../src/use_cases/insert_list_uc.rs           |  41 +++--
 6 files changed, 152 insertions(+), 129 deletions(-)

diff --git a/crates/document_editing/src/units_of_work/insert_frame_uow.rs b/crates/document_editing/src/units_of_work/insert_frame_uow.rs
index 6a5acbe..9eee892 100644
--- a/crates/document_editing/src/units_of_work/insert_frame_uow.rs
+++ b/crates/document_editing/src/units_of_work/insert_frame_uow.rs
@@ -98,6 +98,7 @@ impl CommandUnitOfWork for InsertFrameUnitOfWork {
 #[macros::uow_action(entity = "Frame", action = "Update")]
 #[macros::uow_action(entity = "Frame", action = "GetRelationship")]
 #[macros::uow_action(entity = "Block", action = "GetMulti")]
+#[macros::uow_action(entity = "Block", action = "UpdateMulti")]
 #[macros::uow_action(entity = "Block", action = "Create")]
 impl InsertFrameUnitOfWorkTrait for InsertFrameUnitOfWork {}
 
diff --git a/crates/document_editing/src/use_cases/create_list_uc.rs b/crates/document_editing/src/use_cases/create_list_uc.rs
index 9870225..e51e0a2 100644
--- a/crates/document_editing/src/use_cases/create_list_uc.rs
+++ b/crates/document_editing/src/use_cases/create_list_uc.rs
@@ -81,16 +81,13 @@ fn execute_create_list(
 
     // Get frames
     let frame_ids = uow.get_document_relationship(&doc_id, &DocumentRelationshipField::Frames)?;
-    let frame_id = *frame_ids
-        .first()
-        .ok_or_else(|| anyhow!("Document has no frames"))?;
-
-    // Get block IDs from frame
-    let block_ids = uow.get_frame_relationship(&frame_id, &FrameRelationshipField::Blocks)?;
 
-    // Get all blocks
-    let blocks_opt = uow.get_block_multi(&block_ids)?;
-    let mut blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
+    // Get all blocks, those of table cells and sub-frames included
+    let mut blocks: Vec<Block> = Vec::new();
+    for frame_id in &frame_ids {
+        let block_ids = uow.get_frame_relationship(frame_id, &FrameRelationshipField::Blocks)?;
+        blocks.extend(uow.get_block_multi(&block_ids)?.into_iter().flatten());
+    }
     blocks.sort_by_key(|b| b.document_position);
 
     // Create the List entity
diff --git a/crates/document_editing/src/use_cases/delete_text_uc.rs b/crates/document_editing/src/use_cases/delete_text_uc.rs
index 5b1a917..1e7ce2f 100644
--- a/crates/document_editing/src/use_cases/delete_text_uc.rs
+++ b/crates/document_editing/src/use_cases/delete_text_uc.rs
@@ -121,6 +121,45 @@ fn drop_block_runs_and_images(uow: &dyn DeleteTextUnitOfWorkTrait, block_id: Ent
     store.block_images.write().unwrap().remove(&block_id);
 }
 
+/// All blocks in flow order (table cells and sub-frames included), their
+/// stored positions brought in line with the text before them: insert_text's
+/// fast path leaves those stale.
+fn refreshed_flow_blocks(
+    uow: &mut Box<dyn DeleteTextUnitOfWorkTrait>,
+    frame_id: EntityId,
+) -> Result<Vec<Block>> {
+    let get_table_cell_frames = |table_id: &EntityId| -> anyhow::Result<Vec<EntityId>> {
+        let cell_ids = uow.get_table_relationship(table_id, &TableRelationshipField::Cells)?;
+        let cells_opt = uow.get_table_cell_multi(&cell_ids)?;
+        let mut cells: Vec<TableCell> = cells_opt.into_iter().flatten().collect();
+        cells.sort_by(|a, b| a.row.cmp(&b.row).then(a.column.cmp(&b.column)));
+        Ok(cells.into_iter().filter_map(|c| c.cell_frame).collect())
+    };
+    let block_ids = collect_block_ids_recursive(
+        &|id| uow.get_frame(id),
+        &|id, field| uow.get_frame_relationship(id, field),
+        &get_table_cell_frames,
+        &frame_id,
+    )?;
+    let blocks_opt = uow.get_block_multi(&block_ids)?;
+    let mut blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
+
+    let store = uow.store();
+    let mut running: i64 = 0;
+    let mut stale: Vec<Block> = Vec::new();
+    for b in &mut blocks {
+        if b.document_position != running {
+            b.document_position = running;
+            stale.push(b.clone());
+        }
+        running += block_char_length(b, &store) + 1;
+    }
+    if !stale.is_empty() {
+        uow.update_block_multi(&stale)?;
+    }
+    Ok(blocks)
+}
+
 fn execute_delete(
     uow: &mut Box<dyn DeleteTextUnitOfWorkTrait>,
     dto: &DeleteTextDto,
@@ -167,48 +206,7 @@ fn execute_delete(
         .first()
         .ok_or_else(|| anyhow!("Document has no frames"))?;
 
-    let get_table_cell_frames = |table_id: &EntityId| -> anyhow::Result<Vec<EntityId>> {
-        let cell_ids = uow.get_table_relationship(table_id, &TableRelationshipField::Cells)?;
-        let cells_opt = uow.get_table_cell_multi(&cell_ids)?;
-        let mut cells: Vec<TableCell> = cells_opt.into_iter().flatten().collect();
-        cells.sort_by(|a, b| a.row.cmp(&b.row).then(a.column.cmp(&b.column)));
-        Ok(cells.into_iter().filter_map(|c| c.cell_frame).collect())
-    };
-    let all_block_ids = collect_block_ids_recursive(
-        &|id| uow.get_frame(id),
-        &|id, field| uow.get_frame_relationship(id, field),
-        &get_table_cell_frames,
-        &frame_id,
-    )?;
-
-    let blocks_opt = uow.get_block_multi(&all_block_ids)?;
-    let mut blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
-
-    // Refresh stored block positions from child_order + text_length, since
-    // insert_text's fast path leaves them stale. Cell-frame blocks remain
-    // in their cell-local position space.
-    let root_frame = uow
-        .get_frame(&frame_id)?
-        .ok_or_else(|| anyhow!("Root frame not found"))?;
-    let mut running: i64 = 0;
-    let mut blocks_to_refresh: Vec<Block> = Vec::new();
-    for &entry in &root_frame.child_order {
-        if entry <= 0 {
-            continue;
-        }
-        let id = entry as EntityId;
-        if let Some(b) = blocks.iter_mut().find(|b| b.id == id) {
-            if b.document_position != running {
-                b.document_position = running;
-                blocks_to_refresh.push(b.clone());
-            }
-            running += block_char_length(b, &store) + 1;
-        }
-    }
-    if !blocks_to_refresh.is_empty() {
-        uow.update_block_multi(&blocks_to_refresh)?;
-    }
-    blocks.sort_by_key(|b| b.document_position);
+    let blocks = refreshed_flow_blocks(uow, frame_id)?;
 
     let (start_block, start_block_idx, start_offset) =
         find_block_at_position(&blocks, start, &uow.store())?;
@@ -294,6 +292,7 @@ fn execute_delete(
             let extra_block_ids: Vec<EntityId> = cell_blocks[1..].iter().map(|b| b.id).collect();
             for &eid in &extra_block_ids {
                 drop_block_runs_and_images(uow.as_ref(), eid);
+                common::database::rope_helpers::rope_remove_block(&store, eid);
                 uow.remove_block(&eid)?;
             }
 
@@ -334,6 +333,11 @@ fn execute_delete(
             if start < table_min_pos || end > table_max_pos {
                 for c in &cells {
                     if let Some(cf_id) = c.cell_frame {
+                        for bid in
+                            uow.get_frame_relationship(&cf_id, &FrameRelationshipField::Blocks)?
+                        {
+                            common::database::rope_helpers::rope_remove_block(&store, bid);
+                        }
                         uow.remove_frame(&cf_id)?;
                     }
                     uow.remove_table_cell(&c.id)?;
@@ -354,6 +358,7 @@ fn execute_delete(
                     }
                 }
 
+                common::database::rope_helpers::rope_remove_table_anchor(&store, tid);
                 uow.remove_table(&tid)?;
                 tables_to_remove.push(tid);
             }
@@ -434,6 +439,7 @@ fn execute_delete(
             } else {
                 total_chars_removed += block_char_length(block, &store);
                 drop_block_runs_and_images(uow.as_ref(), block.id);
+                common::database::rope_helpers::rope_remove_block(&store, block.id);
                 uow.remove_block(&block.id)?;
                 non_cell_blocks_to_remove.push(block.id);
             }
@@ -524,23 +530,16 @@ fn execute_delete(
             }
         }
 
-        let remaining_block_count = {
-            let get_tcf = |table_id: &EntityId| -> anyhow::Result<Vec<EntityId>> {
-                let cids = uow.get_table_relationship(table_id, &TableRelationshipField::Cells)?;
-                let cs = uow.get_table_cell_multi(&cids)?;
-                let mut s: Vec<TableCell> = cs.into_iter().flatten().collect();
-                s.sort_by(|a, b| a.row.cmp(&b.row).then(a.column.cmp(&b.column)));
-                Ok(s.into_iter().filter_map(|c| c.cell_frame).collect())
-            };
-            let candidate_ids = collect_block_ids_recursive(
-                &|id| uow.get_frame(id),
-                &|id, field| uow.get_frame_relationship(id, field),
-                &get_tcf,
-                &frame_id,
-            )?;
-            let opts = uow.get_block_multi(&candidate_ids)?;
-            opts.into_iter().flatten().count()
+        let remaining = refreshed_flow_blocks(uow, frame_id)?;
+        // The start block may have lost the text before `start` (a cleared
+        // cell) or be gone altogether.
+        let new_position = match remaining.iter().find(|b| b.id == start_block.id) {
+            Some(b) => b.document_position + start_offset.min(block_char_length(b, &store)),
+            None => remaining.last().map_or(0, |b| {
+                start.min(b.document_position + block_char_length(b, &store))
+            }),
         };
+        let remaining_block_count = remaining.len();
         if remaining_block_count == 0 {
             let empty_block = Block {
                 document_position: 0,
@@ -587,7 +586,7 @@ fn execute_delete(
 
         return Ok((
             DeleteTextResultDto {
-                new_position: start,
+                new_position,
                 deleted_text: String::new(),
             },
             snapshot,
@@ -809,19 +808,21 @@ fn execute_delete(
             uow.remove_block(block_id)?;
         }
 
-        let owning_frame_id = block_to_cell_frame
-            .get(&start_block.id)
-            .copied()
-            .unwrap_or(frame_id);
-        let frame = uow
-            .get_frame(&owning_frame_id)?
-            .ok_or_else(|| anyhow!("Frame not found"))?;
-        let mut updated_frame = frame.clone();
-        updated_frame
-            .child_order
-            .retain(|id| !blocks_to_remove.contains(&(*id as EntityId)));
-        updated_frame.updated_at = chrono::Utc::now();
-        uow.update_frame(&updated_frame)?;
+        // The removed blocks may sit in other frames than the start block
+        // (a sub-frame in the main flow).
+        for fid in &frame_ids {
+            let Some(mut frame) = uow.get_frame(fid)? else {
+                continue;
+            };
+            let before = frame.child_order.len();
+            frame
+                .child_order
+                .retain(|&id| id < 0 || !blocks_to_remove.contains(&(id as EntityId)));
+            if frame.child_order.len() != before {
+                frame.updated_at = now;
+                uow.update_frame(&frame)?;
+            }
+        }
 
         // Use the pre-mutation texts captured at line 653 — by now the
         // rope merge has run and `block_char_length(start_block)` reflects
diff --git a/crates/document_editing/src/use_cases/insert_frame_uc.rs b/crates/document_editing/src/use_cases/insert_frame_uc.rs
index e59f284..98bd92e 100644
--- a/crates/document_editing/src/use_cases/insert_frame_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_frame_uc.rs
@@ -29,6 +29,7 @@ pub trait InsertFrameUnitOfWorkFactoryTrait: Send + Sync {
 #[macros::uow_action(entity = "Frame", action = "Update")]
 #[macros::uow_action(entity = "Frame", action = "GetRelationship")]
 #[macros::uow_action(entity = "Block", action = "GetMulti")]
+#[macros::uow_action(entity = "Block", action = "UpdateMulti")]
 #[macros::uow_action(entity = "Block", action = "Create")]
 pub trait InsertFrameUnitOfWorkTrait: CommandUnitOfWork {}
 
@@ -43,12 +44,12 @@ pub struct InsertFrameUseCase {
 
 /// Find which frame contains the given document position by walking
 /// frames -> blocks and checking document_position ranges.
-/// Returns the frame and the block index within it closest to position.
+/// Returns the frame and the block within it closest to position.
 fn find_frame_at_position(
     uow: &dyn InsertFrameUnitOfWorkTrait,
     frame_ids: &[EntityId],
     position: i64,
-) -> Result<Option<(Frame, usize)>> {
+) -> Result<Option<(Frame, Block)>> {
     let store = uow.store();
     for frame_id in frame_ids {
         let frame = match uow.get_frame(frame_id)? {
@@ -67,16 +68,11 @@ fn find_frame_at_position(
             let frame_start = first.document_position;
             let frame_end = last.document_position + block_char_length(last, &store);
             if position >= frame_start && position <= frame_end {
-                // Find block index closest to position
-                let mut block_idx = 0;
-                for (i, block) in blocks.iter().enumerate() {
-                    if position <= block.document_position + block_char_length(block, &store) {
-                        block_idx = i;
-                        break;
-                    }
-                    block_idx = i;
-                }
-                return Ok(Some((frame, block_idx)));
+                let closest = blocks
+                    .iter()
+                    .find(|b| position <= b.document_position + block_char_length(b, &store))
+                    .unwrap_or(last);
+                return Ok(Some((frame, closest.clone())));
             }
         }
     }
@@ -111,17 +107,22 @@ fn execute_insert_frame(
     // Determine the parent frame from the position
     let frame_ids = uow.get_document_relationship(&doc_id, &DocumentRelationshipField::Frames)?;
 
-    let (parent_frame_id, child_order_insert_idx) =
+    // The new sub-frame goes into its parent's child_order right after the
+    // block at the position, or last if the position is in no frame.
+    let (parent_frame_id, child_order_insert_idx, new_block_position) =
         match find_frame_at_position(&**uow, &frame_ids, dto.position)? {
-            Some((parent_frame, block_idx)) => {
-                // Insert the new sub-frame into the parent's child_order
-                // after the block at block_idx
-                let insert_idx = (block_idx + 1).min(parent_frame.child_order.len());
-                (Some(parent_frame.id), insert_idx)
+            Some((parent_frame, block)) => {
+                let insert_idx = parent_frame
+                    .child_order
+                    .iter()
+                    .position(|&entry| entry == block.id as i64)
+                    .map_or(parent_frame.child_order.len(), |i| i + 1);
+                let block_end = block.document_position + block_char_length(&block, &uow.store());
+                (Some(parent_frame.id), insert_idx, block_end + 1)
             }
             None => {
                 // Position doesn't fall in any frame — append as top-level
-                (None, 0)
+                (None, 0, dto.position)
             }
         };
 
@@ -149,15 +150,32 @@ fn execute_insert_frame(
 
     let created_frame = uow.create_frame(&new_frame, doc_id, -1)?;
 
-    // Create an empty block inside the new frame.
-    // Set document_position to the insertion point so it sorts correctly
-    // for operations that use stored positions (delete_text, insert_block, etc.)
+    // The blocks after the new one move by its separator.
+    if parent_frame_id.is_some() {
+        let mut shifted: Vec<Block> = Vec::new();
+        for frame_id in &frame_ids {
+            let block_ids =
+                uow.get_frame_relationship(frame_id, &FrameRelationshipField::Blocks)?;
+            for mut block in uow.get_block_multi(&block_ids)?.into_iter().flatten() {
+                if block.document_position >= new_block_position {
+                    block.document_position += 1;
+                    shifted.push(block);
+                }
+            }
+        }
+        if !shifted.is_empty() {
+            uow.update_block_multi(&shifted)?;
+        }
+    }
+
+    // Create an empty block inside the new frame, at the position that
+    // operations on stored positions (delete_text, insert_block, etc.) expect.
     let new_block = Block {
         id: 0,
         created_at: now,
         updated_at: now,
         list: None,
-        document_position: dto.position,
+        document_position: new_block_position,
         ..Default::default()
     };
 
diff --git a/crates/document_editing/src/use_cases/insert_image_uc.rs b/crates/document_editing/src/use_cases/insert_image_uc.rs
index 4b5572a..adb8459 100644
--- a/crates/document_editing/src/use_cases/insert_image_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_image_uc.rs
@@ -85,16 +85,13 @@ fn execute_insert_image(
 
     // Get frames
     let frame_ids = uow.get_document_relationship(&doc_id, &DocumentRelationshipField::Frames)?;
-    let frame_id = *frame_ids
-        .first()
-        .ok_or_else(|| anyhow!("Document has no frames"))?;
-
-    // Get block IDs from frame
-    let block_ids = uow.get_frame_relationship(&frame_id, &FrameRelationshipField::Blocks)?;
 
-    // Get all blocks
-    let blocks_opt = uow.get_block_multi(&block_ids)?;
-    let mut blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
+    // Get all blocks, those of table cells and sub-frames included
+    let mut blocks: Vec<Block> = Vec::new();
+    for frame_id in &frame_ids {
+        let block_ids = uow.get_frame_relationship(frame_id, &FrameRelationshipField::Blocks)?;
+        blocks.extend(uow.get_block_multi(&block_ids)?.into_iter().flatten());
+    }
     blocks.sort_by_key(|b| b.document_position);
 
     // Find block at position
diff --git a/crates/document_editing/src/use_cases/insert_list_uc.rs b/crates/document_editing/src/use_cases/insert_list_uc.rs
index ca384c7..cfb8613 100644
--- a/crates/document_editing/src/use_cases/insert_list_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_list_uc.rs
@@ -85,20 +85,13 @@ fn execute_insert_list(
 
     // Get frames
     let frame_ids = uow.get_document_relationship(&doc_id, &DocumentRelationshipField::Frames)?;
-    let frame_id = *frame_ids
-        .first()
-        .ok_or_else(|| anyhow!("Document has no frames"))?;
 
-    let frame = uow
-        .get_frame(&frame_id)?
-        .ok_or_else(|| anyhow!("Frame not found"))?;
-
-    // Get block IDs from frame
-    let block_ids = uow.get_frame_relationship(&frame_id, &FrameRelationshipField::Blocks)?;
-
-    // Get all blocks
-    let blocks_opt = uow.get_block_multi(&block_ids)?;
-    let mut blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
+    // Get all blocks, those of table cells and sub-frames included
+    let mut blocks: Vec<Block> = Vec::new();
+    for frame_id in &frame_ids {
+        let block_ids = uow.get_frame_relationship(frame_id, &FrameRelationshipField::Blocks)?;
+        blocks.extend(uow.get_block_multi(&block_ids)?.into_iter().flatten());
+    }
     blocks.sort_by_key(|b| b.document_position);
 
     // Find block at position to determine insert index
@@ -137,12 +130,28 @@ fn execute_insert_list(
         ..Default::default()
     };
 
-    let insert_index = (block_idx + 1) as i32;
-    let created_block = uow.create_block(&new_block, frame_id, insert_index)?;
+    // It goes right after the current block, into the same frame
+    let mut owner: Option<(EntityId, usize)> = None;
+    for &fid in &frame_ids {
+        let ids = uow.get_frame_relationship(&fid, &FrameRelationshipField::Blocks)?;
+        if let Some(i) = ids.iter().position(|&id| id == current_block.id) {
+            owner = Some((fid, i));
+            break;
+        }
+    }
+    let (frame_id, index_in_frame) = owner.ok_or_else(|| anyhow!("Block has no frame"))?;
+    let frame = uow
+        .get_frame(&frame_id)?
+        .ok_or_else(|| anyhow!("Frame not found"))?;
+    let created_block = uow.create_block(&new_block, frame_id, (index_in_frame + 1) as i32)?;
 
     // Update frame's child_order
     let mut updated_frame = frame.clone();
-    let child_order_insert_pos = (block_idx + 1).min(updated_frame.child_order.len());
+    let child_order_insert_pos = updated_frame
+        .child_order
+        .iter()
+        .position(|&entry| entry == current_block.id as i64)
+        .map_or(updated_frame.child_order.len(), |i| i + 1);
     updated_frame
         .child_order
         .insert(child_order_insert_pos, created_block.id as i64);
-- 
2.43.0


From 1fbb9bb47b60462740a7c19c794b1767fb0a4390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:16 +0000
Subject: [PATCH 47/55] fix: a cursor's moves, deletions and queries see one
 state of the document

---
 crates/public_api/src/cursor.rs     | 820 ++++++++++++----------------
 crates/public_api/src/document.rs   |   8 +-
 crates/public_api/src/text_block.rs |   5 +-
 3 files changed, 361 insertions(+), 472 deletions(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index 38225b6..62c82a6 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -16,7 +16,7 @@ use unicode_segmentation::UnicodeSegmentation;
 
 use crate::convert::{to_i64, to_usize};
 use crate::events::DocumentEvent;
-use crate::flow::{CellRange, FlowElement, SelectionKind, TableCellRef};
+use crate::flow::{CellRange, FlowElement, SelectionKind, TableCellContext, TableCellRef};
 use crate::fragment::DocumentFragment;
 use crate::inner::{CursorData, QueuedEvents, TextDocumentInner};
 use crate::text_table::TextTable;
@@ -90,6 +90,11 @@ impl TextCursor {
         (d.position, d.anchor)
     }
 
+    /// The elements of the main flow.
+    fn main_flow(&self, inner: &TextDocumentInner) -> Vec<FlowElement> {
+        crate::text_frame::build_flow_elements(inner, &self.doc, get_main_frame_id(inner))
+    }
+
     /// Common post-edit bookkeeping: adjust all cursors, set this cursor to
     /// `new_pos`, mark modified, invalidate text cache, queue a
     /// `ContentsChanged` event, and return the queued events for dispatch.
@@ -223,8 +228,8 @@ impl TextCursor {
 
     /// True if the cursor is at the start of a block.
     pub fn at_block_start(&self) -> bool {
-        let pos = self.position();
         let inner = self.doc.lock();
+        let pos = self.position();
         let dto = frontend::document_inspection::GetBlockAtPositionDto {
             position: to_i64(pos),
         };
@@ -237,8 +242,8 @@ impl TextCursor {
 
     /// True if the cursor is at the end of a block.
     pub fn at_block_end(&self) -> bool {
-        let pos = self.position();
         let inner = self.doc.lock();
+        let pos = self.position();
         let dto = frontend::document_inspection::GetBlockAtPositionDto {
             position: to_i64(pos),
         };
@@ -256,8 +261,8 @@ impl TextCursor {
 
     /// True if the cursor is at the very end of the document.
     pub fn at_end(&self) -> bool {
-        let pos = self.position();
         let inner = self.doc.lock();
+        let pos = self.position();
         let stats = document_inspection_commands::get_document_stats(&inner.ctx).unwrap_or({
             frontend::document_inspection::DocumentStatsDto {
                 character_count: 0,
@@ -274,8 +279,8 @@ impl TextCursor {
 
     /// The block number (0-indexed) containing the cursor.
     pub fn block_number(&self) -> usize {
-        let pos = self.position();
         let inner = self.doc.lock();
+        let pos = self.position();
         let dto = frontend::document_inspection::GetBlockAtPositionDto {
             position: to_i64(pos),
         };
@@ -286,8 +291,8 @@ impl TextCursor {
 
     /// The cursor's column within the current block (0-indexed).
     pub fn position_in_block(&self) -> usize {
-        let pos = self.position();
         let inner = self.doc.lock();
+        let pos = self.position();
         let dto = frontend::document_inspection::GetBlockAtPositionDto {
             position: to_i64(pos),
         };
@@ -310,27 +315,31 @@ impl TextCursor {
     /// - `mode` is `MoveAnchor` (plain click / move without selection)
     /// - No adjacent block exists (table is first or last in the document)
     pub fn set_position(&self, position: usize, mode: MoveMode) {
+        let inner = self.doc.lock();
+        self.move_to(&inner, position, mode);
+    }
+
+    /// [`set_position`](Self::set_position), in the document as it is under
+    /// the caller's lock.
+    fn move_to(&self, inner: &TextDocumentInner, position: usize, mode: MoveMode) {
         // Clamp to max document position (includes block separators)
-        let end = {
-            let inner = self.doc.lock();
-            document_inspection_commands::get_document_stats(&inner.ctx)
-                .map(|s| max_cursor_position(&s))
-                .unwrap_or(0)
-        };
-        let mut pos = position.min(end);
+        let mut pos = position.min(document_end(inner));
 
         // Table-trap snap: when extending a selection, if one endpoint is
         // inside a table and the other is outside, relocate the inside
         // endpoint to the boundary of the adjacent block.
         if mode == MoveMode::KeepAnchor {
             let anchor = self.data.lock().anchor;
-            let pos_cell = self.table_cell_at(pos);
-            let anchor_cell = self.table_cell_at(anchor);
+            let pos_cell = table_cell_at(inner, pos);
+            let anchor_cell = table_cell_at(inner, anchor);
+            let boundary = |table_id, before| {
+                table_boundary_position(inner, &self.main_flow(inner), table_id, before)
+            };
             match (&pos_cell, &anchor_cell) {
                 (Some(tc), None) => {
                     // Position is inside a table, anchor is outside.
                     let before = anchor < pos;
-                    if let Some(boundary) = self.table_boundary_position(tc.table.id(), !before) {
+                    if let Some(boundary) = boundary(tc.table_id, !before) {
                         pos = boundary;
                     }
                 }
@@ -338,7 +347,7 @@ impl TextCursor {
                     // Anchor is inside a table, position is outside.
                     // Snap the position so the table is enclosed.
                     let before = pos < anchor;
-                    if let Some(boundary) = self.table_boundary_position(tc.table.id(), !before) {
+                    if let Some(boundary) = boundary(tc.table_id, !before) {
                         pos = boundary;
                     }
                 }
@@ -358,7 +367,7 @@ impl TextCursor {
         // a caller passing an arbitrary scalar index (e.g. computed
         // from a hit-test or a plain-text search) never leaves the
         // cursor inside a multi-scalar grapheme cluster.
-        self.snap_position_to_grapheme_boundary();
+        self.snap_position_to_grapheme_boundary(inner);
     }
 
     /// Move the cursor by a semantic operation.
@@ -367,9 +376,10 @@ impl TextCursor {
     /// (`NextCharacter`, `PreviousCharacter`, `Left`, `Right`).
     /// For all other operations it is ignored. Returns `true` if the cursor moved.
     pub fn move_position(&self, operation: MoveOperation, mode: MoveMode, n: usize) -> bool {
+        let inner = self.doc.lock();
         let old_pos = self.position();
-        let target = self.resolve_move(operation, n);
-        self.set_position(target, mode);
+        let target = Self::resolve_move(&inner, old_pos, operation, n);
+        self.move_to(&inner, target, mode);
         self.position() != old_pos
     }
 
@@ -377,20 +387,16 @@ impl TextCursor {
     pub fn select(&self, selection: SelectionType) {
         match selection {
             SelectionType::Document => {
-                let end = {
-                    let inner = self.doc.lock();
-                    document_inspection_commands::get_document_stats(&inner.ctx)
-                        .map(|s| max_cursor_position(&s))
-                        .unwrap_or(0)
-                };
+                let inner = self.doc.lock();
+                let end = document_end(&inner);
                 let mut d = self.data.lock();
                 d.anchor = 0;
                 d.position = end;
                 d.cell_selection_override = None;
             }
             SelectionType::BlockUnderCursor | SelectionType::LineUnderCursor => {
-                let pos = self.position();
                 let inner = self.doc.lock();
+                let pos = self.position();
                 let dto = frontend::document_inspection::GetBlockAtPositionDto {
                     position: to_i64(pos),
                 };
@@ -399,7 +405,6 @@ impl TextCursor {
                 {
                     let start = to_usize(info.block_start);
                     let end = start + to_usize(info.block_length);
-                    drop(inner);
                     let mut d = self.data.lock();
                     d.anchor = start;
                     d.position = end;
@@ -407,8 +412,9 @@ impl TextCursor {
                 }
             }
             SelectionType::WordUnderCursor => {
+                let inner = self.doc.lock();
                 let pos = self.position();
-                let (word_start, word_end) = self.find_word_boundaries(pos);
+                let (word_start, word_end) = Self::find_word_boundaries(&inner, pos);
                 let mut d = self.data.lock();
                 d.anchor = word_start;
                 d.position = word_end;
@@ -686,12 +692,13 @@ impl TextCursor {
 
     /// Extract the current selection as a [`DocumentFragment`].
     pub fn selection(&self) -> DocumentFragment {
+        let inner = self.doc.lock();
         let (pos, anchor) = self.read_cursor();
 
         // For cell/mixed selections, compute position/anchor that span the
         // full cell range so ExtractFragment detects cross-cell correctly.
-        let (extract_pos, extract_anchor) = match self.selection_kind() {
-            SelectionKind::Cells(ref range) => match self.cell_range_positions(range) {
+        let (extract_pos, extract_anchor) = match self.selection_kind_in(&inner) {
+            SelectionKind::Cells(ref range) => match cell_range_positions(&inner, range) {
                 Some((start, end)) => (start, end),
                 None => return DocumentFragment::new(),
             },
@@ -700,7 +707,7 @@ impl TextCursor {
                 text_before,
                 text_after,
             } => {
-                let (cell_start, cell_end) = match self.cell_range_positions(cell_range) {
+                let (cell_start, cell_end) = match cell_range_positions(&inner, cell_range) {
                     Some(p) => p,
                     None => return DocumentFragment::new(),
                 };
@@ -724,7 +731,6 @@ impl TextCursor {
             return DocumentFragment::new();
         }
 
-        let inner = self.doc.lock();
         let dto = frontend::document_inspection::ExtractFragmentDto {
             position: to_i64(extract_pos),
             anchor: to_i64(extract_anchor),
@@ -863,36 +869,21 @@ impl TextCursor {
     /// Returns `None` if the cursor is not inside a table cell.
     /// When `Some`, provides the table, row, and column.
     pub fn current_table_cell(&self) -> Option<TableCellRef> {
-        let pos = self.position();
         let inner = self.doc.lock();
-        // Find the block at cursor position
-        let dto = frontend::document_inspection::GetBlockAtPositionDto {
-            position: to_i64(pos),
-        };
-        let block_info =
-            document_inspection_commands::get_block_at_position(&inner.ctx, &dto).ok()?;
-
-        // When position < block_start, the cursor sits on the separator between
-        // the previous block and this one. Visually the cursor belongs to the
-        // end of the previous block, so look up that block instead.
-        let block_id = if to_i64(pos) < block_info.block_start && pos > 0 {
-            let prev_dto = frontend::document_inspection::GetBlockAtPositionDto {
-                position: to_i64(pos - 1),
-            };
-            let prev_info =
-                document_inspection_commands::get_block_at_position(&inner.ctx, &prev_dto).ok()?;
-            prev_info.block_id as usize
-        } else {
-            block_info.block_id as usize
-        };
+        let cell = table_cell_at(&inner, self.position())?;
+        Some(self.cell_ref(&cell))
+    }
 
-        let block = crate::text_block::TextBlock {
-            doc: self.doc.clone(),
-            block_id,
-        };
-        // Release inner lock before calling table_cell() which also locks
-        drop(inner);
-        block.table_cell()
+    /// The live handle of a table cell.
+    fn cell_ref(&self, cell: &TableCellContext) -> TableCellRef {
+        TableCellRef {
+            table: TextTable {
+                doc: self.doc.clone(),
+                table_id: cell.table_id,
+            },
+            row: cell.row,
+            column: cell.column,
+        }
     }
 
     // ── Table structure mutations (explicit-ID) ──────────
@@ -1146,31 +1137,17 @@ impl TextCursor {
     /// Returns an error if the cursor is not inside a table or position
     /// and anchor are in different tables.
     pub fn merge_selected_cells(&self) -> Result<()> {
-        let pos_cell = self
-            .current_table_cell()
-            .ok_or_else(|| anyhow::anyhow!("cursor position is not inside a table"))?;
-
-        // Get anchor cell
-        let (_pos, anchor) = self.read_cursor();
-        let anchor_cell = {
-            // Create a temporary block handle at the anchor position
+        let (pos_cell, anchor_cell) = {
             let inner = self.doc.lock();
-            let dto = frontend::document_inspection::GetBlockAtPositionDto {
-                position: to_i64(anchor),
-            };
-            let block_info = document_inspection_commands::get_block_at_position(&inner.ctx, &dto)
-                .map_err(|_| anyhow::anyhow!("cursor anchor is not inside a table"))?;
-            let block = crate::text_block::TextBlock {
-                doc: self.doc.clone(),
-                block_id: block_info.block_id as usize,
-            };
-            drop(inner);
-            block
-                .table_cell()
-                .ok_or_else(|| anyhow::anyhow!("cursor anchor is not inside a table"))?
+            let (pos, anchor) = self.read_cursor();
+            let pos_cell = table_cell_at(&inner, pos)
+                .ok_or_else(|| anyhow::anyhow!("cursor position is not inside a table"))?;
+            let anchor_cell = table_cell_at(&inner, anchor)
+                .ok_or_else(|| anyhow::anyhow!("cursor anchor is not inside a table"))?;
+            (pos_cell, anchor_cell)
         };
 
-        if pos_cell.table.id() != anchor_cell.table.id() {
+        if pos_cell.table_id != anchor_cell.table_id {
             return Err(anyhow::anyhow!(
                 "position and anchor are in different tables"
             ));
@@ -1181,7 +1158,7 @@ impl TextCursor {
         let end_row = pos_cell.row.max(anchor_cell.row);
         let end_col = pos_cell.column.max(anchor_cell.column);
 
-        self.merge_table_cells(pos_cell.table.id(), start_row, start_col, end_row, end_col)
+        self.merge_table_cells(pos_cell.table_id, start_row, start_col, end_row, end_col)
     }
 
     /// Split the cell at the cursor's current position.
@@ -1229,10 +1206,13 @@ impl TextCursor {
     /// different cells of the same table (rectangular cell selection), or
     /// when an explicit cell-selection override is active.
     pub fn selection_kind(&self) -> crate::flow::SelectionKind {
-        use crate::flow::{CellRange, SelectionKind};
+        let inner = self.doc.lock();
+        self.selection_kind_in(&inner)
+    }
 
+    fn selection_kind_in(&self, inner: &TextDocumentInner) -> crate::flow::SelectionKind {
         // Check override first
-        {
+        let (pos, anchor) = {
             let d = self.data.lock();
             if let Some(ref range) = d.cell_selection_override {
                 return SelectionKind::Cells(range.clone());
@@ -1240,43 +1220,28 @@ impl TextCursor {
             if d.position == d.anchor {
                 return SelectionKind::None;
             }
-        }
+            (d.position, d.anchor)
+        };
 
-        let (pos, anchor) = self.read_cursor();
+        // Following Word behaviour, a selection that reaches into a table
+        // from outside, or across one, takes all of its cells.
+        let mixed = |table_id, text_before, text_after| SelectionKind::Mixed {
+            cell_range: whole_table(inner, table_id),
+            text_before,
+            text_after,
+        };
 
         // Look up table cell for position and anchor
-        let pos_cell = self.table_cell_at(pos);
-        let anchor_cell = self.table_cell_at(anchor);
-
-        match (&pos_cell, &anchor_cell) {
+        match (table_cell_at(inner, pos), table_cell_at(inner, anchor)) {
             (None, None) => {
-                // Both endpoints are outside tables. Check whether a table
-                // sits between them — if so, all its cells must be selected
-                // (Word behaviour).
                 let (start, end) = (pos.min(anchor), pos.max(anchor));
-                if let Some(t) = self.find_table_between(start, end) {
-                    let table_id = t.id();
-                    let rows = t.rows();
-                    let cols = t.columns();
-                    let range = CellRange {
-                        table_id,
-                        start_row: 0,
-                        start_col: 0,
-                        end_row: if rows > 0 { rows - 1 } else { 0 },
-                        end_col: if cols > 0 { cols - 1 } else { 0 },
-                    };
-                    let spans = self.collect_cell_spans(table_id);
-                    SelectionKind::Mixed {
-                        cell_range: range.expand_for_spans(&spans),
-                        text_before: true,
-                        text_after: true,
-                    }
-                } else {
-                    SelectionKind::Text
+                match find_table_between(inner, &self.main_flow(inner), start, end) {
+                    Some(table_id) => mixed(table_id, true, true),
+                    None => SelectionKind::Text,
                 }
             }
             (Some(pc), Some(ac)) => {
-                if pc.table.id() != ac.table.id() {
+                if pc.table_id != ac.table_id {
                     // Different tables — treat as text (whole tables selected between them)
                     return SelectionKind::Text;
                 }
@@ -1286,43 +1251,17 @@ impl TextCursor {
                 }
                 // Different cells, same table — rectangular cell selection
                 let range = CellRange {
-                    table_id: pc.table.id(),
+                    table_id: pc.table_id,
                     start_row: pc.row.min(ac.row),
                     start_col: pc.column.min(ac.column),
                     end_row: pc.row.max(ac.row),
                     end_col: pc.column.max(ac.column),
                 };
-                let spans = self.collect_cell_spans(pc.table.id());
+                let spans = collect_cell_spans(inner, pc.table_id);
                 SelectionKind::Cells(range.expand_for_spans(&spans))
             }
-            (Some(tc), None) | (None, Some(tc)) => {
-                // One endpoint inside a table, the other outside — mixed
-                // selection.  Following Word behaviour, select ALL cells in
-                // the table (not just from the entry edge to the cursor row).
-                let table_id = tc.table.id();
-                let rows = tc.table.rows();
-                let cols = tc.table.columns();
-
-                let inside_pos = if pos_cell.is_some() { pos } else { anchor };
-                let outside_pos = if pos_cell.is_some() { anchor } else { pos };
-
-                let text_before = outside_pos < inside_pos;
-                let text_after = !text_before;
-
-                let range = CellRange {
-                    table_id,
-                    start_row: 0,
-                    start_col: 0,
-                    end_row: if rows > 0 { rows - 1 } else { 0 },
-                    end_col: if cols > 0 { cols - 1 } else { 0 },
-                };
-                let spans = self.collect_cell_spans(table_id);
-                SelectionKind::Mixed {
-                    cell_range: range.expand_for_spans(&spans),
-                    text_before,
-                    text_after,
-                }
-            }
+            (Some(tc), None) => mixed(tc.table_id, anchor < pos, anchor > pos),
+            (None, Some(tc)) => mixed(tc.table_id, pos < anchor, pos > anchor),
         }
     }
 
@@ -1398,7 +1337,8 @@ impl TextCursor {
             end_row,
             end_col,
         };
-        let spans = self.collect_cell_spans(table_id);
+        let inner = self.doc.lock();
+        let spans = collect_cell_spans(&inner, table_id);
         let mut d = self.data.lock();
         d.cell_selection_override = Some(range.expand_for_spans(&spans));
     }
@@ -1409,252 +1349,33 @@ impl TextCursor {
         d.cell_selection_override = None;
     }
 
-    /// Compute (min_position, max_position) spanning all blocks in a cell range.
-    /// Returns `None` if the table or cells cannot be found.
-    fn cell_range_positions(&self, range: &CellRange) -> Option<(usize, usize)> {
-        let inner = self.doc.lock();
-        let main_frame_id = get_main_frame_id(&inner);
-        let flow = crate::text_frame::build_flow_elements(&inner, &self.doc, main_frame_id);
-        drop(inner);
-
-        // Find the table matching the range's table_id
-        let table = flow.into_iter().find_map(|e| match e {
-            FlowElement::Table(t) if t.id() == range.table_id => Some(t),
-            _ => None,
-        })?;
-
-        let mut min_pos = usize::MAX;
-        let mut max_pos = 0usize;
-
-        for row in range.start_row..=range.end_row {
-            for col in range.start_col..=range.end_col {
-                if let Some(cell) = table.cell(row, col) {
-                    for block in cell.blocks() {
-                        let bp = block.position();
-                        let bl = block.length();
-                        min_pos = min_pos.min(bp);
-                        max_pos = max_pos.max(bp + bl);
-                    }
-                }
-            }
-        }
-
-        if min_pos == usize::MAX {
-            return None;
-        }
-
-        // Extend max_pos past the last block to ensure cross-cell detection
-        Some((min_pos, max_pos + 1))
-    }
-
-    // ── Cell selection helpers (private) ─────────────────────
-
-    /// Look up which table cell contains the given document position, if any.
-    fn table_cell_at(&self, position: usize) -> Option<TableCellRef> {
-        let inner = self.doc.lock();
-        let dto = frontend::document_inspection::GetBlockAtPositionDto {
-            position: to_i64(position),
-        };
-        let block_info =
-            document_inspection_commands::get_block_at_position(&inner.ctx, &dto).ok()?;
-
-        let block_id = if to_i64(position) < block_info.block_start && position > 0 {
-            let prev_dto = frontend::document_inspection::GetBlockAtPositionDto {
-                position: to_i64(position - 1),
-            };
-            let prev_info =
-                document_inspection_commands::get_block_at_position(&inner.ctx, &prev_dto).ok()?;
-            prev_info.block_id as usize
-        } else {
-            block_info.block_id as usize
-        };
-
-        let block = crate::text_block::TextBlock {
-            doc: self.doc.clone(),
-            block_id,
-        };
-        drop(inner);
-        block.table_cell()
-    }
-
-    /// Find the document position at the boundary of the block adjacent to a
-    /// table. Used by the table-trap logic in [`set_position`](Self::set_position).
-    ///
-    /// - `before == true`: returns the last position of the block immediately
-    ///   before the table (i.e. `block.position() + block.length()`).
-    /// - `before == false`: returns the first position of the block immediately
-    ///   after the table.
-    ///
-    /// Returns `None` when no adjacent block exists (table is first or last
-    /// element in the flow).
-    fn table_boundary_position(&self, table_id: usize, before: bool) -> Option<usize> {
-        let inner = self.doc.lock();
-        let main_frame_id = get_main_frame_id(&inner);
-        let flow = crate::text_frame::build_flow_elements(&inner, &self.doc, main_frame_id);
-        drop(inner);
-
-        // Find the table in the flow and peek at the adjacent element.
-        let idx = flow
-            .iter()
-            .position(|e| matches!(e, FlowElement::Table(t) if t.id() == table_id))?;
-
-        if before {
-            // Walk backwards to find the nearest Block.
-            for i in (0..idx).rev() {
-                if let FlowElement::Block(b) = &flow[i] {
-                    return Some(b.position() + b.length());
-                }
-            }
-        } else {
-            // Walk forwards to find the nearest Block.
-            for item in flow.iter().skip(idx + 1) {
-                if let FlowElement::Block(b) = item {
-                    return Some(b.position());
-                }
-            }
-        }
-        None
-    }
-
-    /// Find the first table whose cell blocks fall within the range `(start, end)`.
-    fn find_table_between(&self, start: usize, end: usize) -> Option<TextTable> {
-        let inner = self.doc.lock();
-        let main_frame_id = get_main_frame_id(&inner);
-        let flow = crate::text_frame::build_flow_elements(&inner, &self.doc, main_frame_id);
-        drop(inner);
-
-        for elem in flow {
-            if let FlowElement::Table(t) = elem {
-                // Check whether the first cell's block position is between
-                // the two endpoints (i.e. the table is inside the range).
-                if let Some(first_cell) = t.cell(0, 0) {
-                    let blocks = first_cell.blocks();
-                    if let Some(fb) = blocks.first() {
-                        let p = fb.position();
-                        if p > start && p < end {
-                            return Some(t);
-                        }
-                    }
-                }
-            }
-        }
-        None
-    }
-
-    /// Collect `(row, col, row_span, col_span)` tuples for all cells in a table.
-    fn collect_cell_spans(&self, table_id: usize) -> Vec<(usize, usize, usize, usize)> {
-        let inner = self.doc.lock();
-        let table_dto =
-            match frontend::commands::table_commands::get_table(&inner.ctx, &(table_id as u64))
-                .ok()
-                .flatten()
-            {
-                Some(t) => t,
-                None => return Vec::new(),
-            };
-
-        let mut spans = Vec::with_capacity(table_dto.cells.len());
-        for &cell_id in &table_dto.cells {
-            if let Some(cell) =
-                frontend::commands::table_cell_commands::get_table_cell(&inner.ctx, &cell_id)
-                    .ok()
-                    .flatten()
-            {
-                spans.push((
-                    cell.row as usize,
-                    cell.column as usize,
-                    cell.row_span.max(1) as usize,
-                    cell.column_span.max(1) as usize,
-                ));
-            }
-        }
-        spans
-    }
-
     /// Delete the character after the cursor (Delete key).
     pub fn delete_char(&self) -> Result<()> {
-        let (pos, anchor) = self.read_cursor();
-        let (del_pos, del_anchor) = if pos != anchor {
-            (pos, anchor)
-        } else {
-            // No-op at end of document (symmetric with delete_previous_char at start)
-            let end = {
-                let inner = self.doc.lock();
-                document_inspection_commands::get_document_stats(&inner.ctx)
-                    .map(|s| max_cursor_position(&s))
-                    .unwrap_or(0)
-            };
-            if pos >= end {
-                return Ok(());
-            }
-            // Delete the whole grapheme cluster after the cursor so a
-            // single Delete on `👋🏻` or `e\u{0301}` removes the
-            // user-perceived character, not just its first scalar.
-            let to = self.next_grapheme_boundary(pos);
-            if to == pos {
-                return Ok(());
-            }
-            (pos, to)
-        };
-        self.do_delete(del_pos, del_anchor)
+        // A whole grapheme cluster, so a single Delete on `👋🏻` or
+        // `e\u{0301}` removes the user-perceived character, not just its
+        // first scalar. No-op at end of document (symmetric with
+        // delete_previous_char at start).
+        self.delete_selection_or(Self::next_grapheme_boundary)
     }
 
     /// Delete the character before the cursor (Backspace key).
     pub fn delete_previous_char(&self) -> Result<()> {
-        let (pos, anchor) = self.read_cursor();
-        let (del_pos, del_anchor) = if pos != anchor {
-            (pos, anchor)
-        } else if pos > 0 {
-            let from = self.prev_grapheme_boundary(pos);
-            if from == pos {
-                return Ok(());
-            }
-            (pos, from)
-        } else {
-            return Ok(());
-        };
-        self.do_delete(del_pos, del_anchor)
+        self.delete_selection_or(Self::prev_grapheme_boundary)
     }
 
     /// Delete the selected text. Returns the deleted text. No-op if no selection.
     pub fn remove_selected_text(&self) -> Result<String> {
-        let queued = {
+        let (deleted, queued) = {
             let mut inner = self.doc.lock();
             let (pos, anchor) = self.read_cursor();
             if pos == anchor {
                 return Ok(String::new());
             }
-            let dto = frontend::document_editing::DeleteTextDto {
-                position: to_i64(pos),
-                anchor: to_i64(anchor),
-            };
-            let result =
-                document_editing_commands::delete_text(&inner.ctx, Some(inner.stack_id), &dto)?;
-            let edit_pos = pos.min(anchor);
-            let removed = pos.max(anchor) - edit_pos;
-            let new_pos = to_usize(result.new_position);
-            inner.adjust_cursors(edit_pos, removed, 0);
-            {
-                let mut d = self.data.lock();
-                d.position = new_pos;
-                d.anchor = new_pos;
-            }
-            inner.modified = true;
-            inner.invalidate_text_cache();
-            inner.rehighlight_affected(edit_pos);
-            inner.queue_event(DocumentEvent::ContentsChanged {
-                position: edit_pos,
-                chars_removed: removed,
-                chars_added: 0,
-                blocks_affected: 1,
-            });
-            inner.check_block_count_changed();
-            inner.check_flow_changed();
-            // Return the deleted text alongside the queued events
-            (result.deleted_text, self.queue_undo_redo_event(&mut inner))
+            let deleted = self.do_delete(&mut inner, pos, anchor)?;
+            (deleted, self.queue_undo_redo_event(&mut inner))
         };
-        crate::inner::dispatch_queued_events(queued.1);
-        Ok(queued.0)
+        crate::inner::dispatch_queued_events(queued);
+        Ok(deleted)
     }
 
     // ── List operations ──────────────────────────────────────
@@ -1662,8 +1383,8 @@ impl TextCursor {
     /// Returns the list that the block at the cursor position belongs to,
     /// or `None` if the current block is not a list item.
     pub fn current_list(&self) -> Option<crate::TextList> {
-        let pos = self.position();
         let inner = self.doc.lock();
+        let pos = self.position();
         let dto = frontend::document_inspection::GetBlockAtPositionDto {
             position: to_i64(pos),
         };
@@ -1786,8 +1507,8 @@ impl TextCursor {
 
     /// Add the block at the cursor position to a list.
     pub fn add_current_block_to_list(&self, list_id: usize) -> Result<()> {
-        let pos = self.position();
         let inner = self.doc.lock();
+        let pos = self.position();
         let dto = frontend::document_inspection::GetBlockAtPositionDto {
             position: to_i64(pos),
         };
@@ -1825,8 +1546,8 @@ impl TextCursor {
     /// Remove the block at the cursor position from its list.
     /// Returns an error if the current block is not a list item.
     pub fn remove_current_block_from_list(&self) -> Result<()> {
-        let pos = self.position();
         let inner = self.doc.lock();
+        let pos = self.position();
         let dto = frontend::document_inspection::GetBlockAtPositionDto {
             position: to_i64(pos),
         };
@@ -1853,8 +1574,8 @@ impl TextCursor {
     /// Get the character format at the cursor position. Reads the
     /// covering `FormatRun` (or image anchor) directly from the store.
     pub fn char_format(&self) -> Result<TextFormat> {
-        let pos = self.position();
         let inner = self.doc.lock();
+        let pos = self.position();
 
         // Locate the block containing the cursor.
         let dto = frontend::document_inspection::GetBlockAtPositionDto {
@@ -1910,8 +1631,8 @@ impl TextCursor {
 
     /// Get the block format of the block containing the cursor.
     pub fn block_format(&self) -> Result<BlockFormat> {
-        let pos = self.position();
         let inner = self.doc.lock();
+        let pos = self.position();
         let dto = frontend::document_inspection::GetBlockAtPositionDto {
             position: to_i64(pos),
         };
@@ -2052,57 +1773,98 @@ impl TextCursor {
         inner.take_queued_events()
     }
 
-    fn do_delete(&self, pos: usize, anchor: usize) -> Result<()> {
+    /// Delete the selection, or without one from the cursor to `target`.
+    fn delete_selection_or(&self, target: fn(&TextDocumentInner, usize) -> usize) -> Result<()> {
         let queued = {
             let mut inner = self.doc.lock();
-            let dto = frontend::document_editing::DeleteTextDto {
-                position: to_i64(pos),
-                anchor: to_i64(anchor),
-            };
-            let result =
-                document_editing_commands::delete_text(&inner.ctx, Some(inner.stack_id), &dto)?;
-            let edit_pos = pos.min(anchor);
-            let removed = pos.max(anchor) - edit_pos;
-            let new_pos = to_usize(result.new_position);
-            inner.adjust_cursors(edit_pos, removed, 0);
-            {
-                let mut d = self.data.lock();
-                d.position = new_pos;
-                d.anchor = new_pos;
+            let (pos, mut anchor) = self.read_cursor();
+            if pos == anchor {
+                anchor = target(&inner, pos);
+                if anchor == pos {
+                    return Ok(());
+                }
             }
-            inner.modified = true;
-            inner.invalidate_text_cache();
-            inner.rehighlight_affected(edit_pos);
-            inner.queue_event(DocumentEvent::ContentsChanged {
-                position: edit_pos,
-                chars_removed: removed,
-                chars_added: 0,
-                blocks_affected: 1,
-            });
-            inner.check_block_count_changed();
-            inner.check_flow_changed();
+            self.do_delete(&mut inner, pos, anchor)?;
             self.queue_undo_redo_event(&mut inner)
         };
         crate::inner::dispatch_queued_events(queued);
         Ok(())
     }
 
+    /// Delete from `pos` to `anchor` and bring cursors and listeners up to
+    /// date. Returns the deleted text.
+    fn do_delete(
+        &self,
+        inner: &mut TextDocumentInner,
+        pos: usize,
+        anchor: usize,
+    ) -> Result<String> {
+        let dto = frontend::document_editing::DeleteTextDto {
+            position: to_i64(pos),
+            anchor: to_i64(anchor),
+        };
+        let result =
+            document_editing_commands::delete_text(&inner.ctx, Some(inner.stack_id), &dto)?;
+        let edit_pos = pos.min(anchor);
+        let removed = pos.max(anchor) - edit_pos;
+        let new_pos = to_usize(result.new_position);
+        inner.adjust_cursors(edit_pos, removed, 0);
+        {
+            let mut d = self.data.lock();
+            d.position = new_pos;
+            d.anchor = new_pos;
+        }
+        inner.modified = true;
+        inner.invalidate_text_cache();
+        inner.rehighlight_affected(edit_pos);
+        inner.queue_event(DocumentEvent::ContentsChanged {
+            position: edit_pos,
+            chars_removed: removed,
+            chars_added: 0,
+            blocks_affected: 1,
+        });
+        inner.check_block_count_changed();
+        inner.check_flow_changed();
+        Ok(result.deleted_text)
+    }
+
+    /// Snap the cursor's current position to the nearest grapheme
+    /// cluster boundary, moving forward if currently mid-cluster.
+    /// No-op when already at a boundary.
+    ///
+    /// Applied automatically by `cursor_at` and `set_position` so a
+    /// caller passing an arbitrary scalar index never lands inside a
+    /// cluster — without this, a round-trip such as
+    /// `NextCharacter → PreviousCharacter` would stop at the cluster
+    /// start rather than the start position, because the pre-advance
+    /// state wasn't a boundary to begin with.
+    pub(crate) fn snap_position_to_grapheme_boundary(&self, inner: &TextDocumentInner) {
+        let pos = {
+            let data = self.data.lock();
+            data.position
+        };
+        let snapped = Self::forward_grapheme_boundary_at_or_after(inner, pos);
+        if snapped != pos {
+            let mut data = self.data.lock();
+            data.position = snapped;
+            if data.anchor == pos {
+                data.anchor = snapped;
+            }
+        }
+    }
+
     /// Resolve a MoveOperation to a concrete position.
-    fn resolve_move(&self, op: MoveOperation, n: usize) -> usize {
-        let pos = self.position();
+    fn resolve_move(inner: &TextDocumentInner, pos: usize, op: MoveOperation, n: usize) -> usize {
         match op {
             MoveOperation::NoMove => pos,
             MoveOperation::Start => 0,
-            MoveOperation::End => {
-                let inner = self.doc.lock();
-                document_inspection_commands::get_document_stats(&inner.ctx)
-                    .map(|s| max_cursor_position(&s))
-                    .unwrap_or(pos)
-            }
+            MoveOperation::End => document_inspection_commands::get_document_stats(&inner.ctx)
+                .map(|s| max_cursor_position(&s))
+                .unwrap_or(pos),
             MoveOperation::NextCharacter | MoveOperation::Right => {
                 let mut cur = pos;
                 for _ in 0..n {
-                    let next = self.next_grapheme_boundary(cur);
+                    let next = Self::next_grapheme_boundary(inner, cur);
                     if next == cur {
                         break;
                     }
@@ -2113,7 +1875,7 @@ impl TextCursor {
             MoveOperation::PreviousCharacter | MoveOperation::Left => {
                 let mut cur = pos;
                 for _ in 0..n {
-                    let prev = self.prev_grapheme_boundary(cur);
+                    let prev = Self::prev_grapheme_boundary(inner, cur);
                     if prev == cur {
                         break;
                     }
@@ -2122,7 +1884,6 @@ impl TextCursor {
                 cur
             }
             MoveOperation::StartOfBlock | MoveOperation::StartOfLine => {
-                let inner = self.doc.lock();
                 let dto = frontend::document_inspection::GetBlockAtPositionDto {
                     position: to_i64(pos),
                 };
@@ -2131,7 +1892,6 @@ impl TextCursor {
                     .unwrap_or(pos)
             }
             MoveOperation::EndOfBlock | MoveOperation::EndOfLine => {
-                let inner = self.doc.lock();
                 let dto = frontend::document_inspection::GetBlockAtPositionDto {
                     position: to_i64(pos),
                 };
@@ -2140,7 +1900,6 @@ impl TextCursor {
                     .unwrap_or(pos)
             }
             MoveOperation::NextBlock => {
-                let inner = self.doc.lock();
                 let dto = frontend::document_inspection::GetBlockAtPositionDto {
                     position: to_i64(pos),
                 };
@@ -2152,7 +1911,6 @@ impl TextCursor {
                     .unwrap_or(pos)
             }
             MoveOperation::PreviousBlock => {
-                let inner = self.doc.lock();
                 let dto = frontend::document_inspection::GetBlockAtPositionDto {
                     position: to_i64(pos),
                 };
@@ -2173,11 +1931,10 @@ impl TextCursor {
                 }
             }
             MoveOperation::NextWord | MoveOperation::EndOfWord | MoveOperation::WordRight => {
-                let (_, end) = self.find_word_boundaries(pos);
+                let (_, end) = Self::find_word_boundaries(inner, pos);
                 // Move past the word end to the next word
                 if end == pos {
                     // Already at a boundary, skip whitespace
-                    let inner = self.doc.lock();
                     let max_pos = document_inspection_commands::get_document_stats(&inner.ctx)
                         .map(|s| max_cursor_position(&s))
                         .unwrap_or(0);
@@ -2196,8 +1953,7 @@ impl TextCursor {
                             if ch.is_alphanumeric() || ch == '_' {
                                 // Found start of next word, find its end
                                 let word_pos = pos + i;
-                                drop(inner);
-                                let (_, word_end) = self.find_word_boundaries(word_pos);
+                                let (_, word_end) = Self::find_word_boundaries(inner, word_pos);
                                 return word_end;
                             }
                         }
@@ -2208,7 +1964,7 @@ impl TextCursor {
                 }
             }
             MoveOperation::PreviousWord | MoveOperation::StartOfWord | MoveOperation::WordLeft => {
-                let (start, _) = self.find_word_boundaries(pos);
+                let (start, _) = Self::find_word_boundaries(inner, pos);
                 if start < pos {
                     start
                 } else if pos > 0 {
@@ -2216,7 +1972,7 @@ impl TextCursor {
                     // to find the start of the previous word.
                     let mut search = pos - 1;
                     loop {
-                        let (ws, we) = self.find_word_boundaries(search);
+                        let (ws, we) = Self::find_word_boundaries(inner, search);
                         if ws < we {
                             // Found a word; return its start
                             break ws;
@@ -2235,39 +1991,14 @@ impl TextCursor {
                 // Up/Down are visual operations that depend on line wrapping.
                 // Without layout info, treat as PreviousBlock/NextBlock.
                 if matches!(op, MoveOperation::Up) {
-                    self.resolve_move(MoveOperation::PreviousBlock, 1)
+                    Self::resolve_move(inner, pos, MoveOperation::PreviousBlock, 1)
                 } else {
-                    self.resolve_move(MoveOperation::NextBlock, 1)
+                    Self::resolve_move(inner, pos, MoveOperation::NextBlock, 1)
                 }
             }
         }
     }
 
-    /// Snap the cursor's current position to the nearest grapheme
-    /// cluster boundary, moving forward if currently mid-cluster.
-    /// No-op when already at a boundary.
-    ///
-    /// Applied automatically by `cursor_at` and `set_position` so a
-    /// caller passing an arbitrary scalar index never lands inside a
-    /// cluster — without this, a round-trip such as
-    /// `NextCharacter → PreviousCharacter` would stop at the cluster
-    /// start rather than the start position, because the pre-advance
-    /// state wasn't a boundary to begin with.
-    pub(crate) fn snap_position_to_grapheme_boundary(&self) {
-        let pos = {
-            let data = self.data.lock();
-            data.position
-        };
-        let snapped = self.forward_grapheme_boundary_at_or_after(pos);
-        if snapped != pos {
-            let mut data = self.data.lock();
-            data.position = snapped;
-            if data.anchor == pos {
-                data.anchor = snapped;
-            }
-        }
-    }
-
     /// Return `pos` if it sits at a grapheme cluster boundary within
     /// its block; otherwise return the end position of the containing
     /// cluster (snap forward). Block separators are always treated as
@@ -2277,8 +2008,7 @@ impl TextCursor {
     /// unchanged — the snap must never silently upgrade an out-of-
     /// range cursor to a valid one, because edit ops rely on the
     /// out-of-range check to stay no-ops.
-    fn forward_grapheme_boundary_at_or_after(&self, pos: usize) -> usize {
-        let inner = self.doc.lock();
+    fn forward_grapheme_boundary_at_or_after(inner: &TextDocumentInner, pos: usize) -> usize {
         let end = document_inspection_commands::get_document_stats(&inner.ctx)
             .map(|s| max_cursor_position(&s))
             .unwrap_or(pos);
@@ -2309,7 +2039,6 @@ impl TextCursor {
             return pos;
         };
         let text = r.text;
-        drop(inner);
         // Walk grapheme clusters, accumulating char counts. The first
         // boundary >= offset_in_block is the snap target.
         let mut acc = 0usize;
@@ -2334,8 +2063,7 @@ impl TextCursor {
     /// from the end of a block goes to the start of the next block
     /// (one scalar forward) without touching the grapheme path.
     /// Returns `pos` unchanged when already at the document end.
-    fn next_grapheme_boundary(&self, pos: usize) -> usize {
-        let inner = self.doc.lock();
+    fn next_grapheme_boundary(inner: &TextDocumentInner, pos: usize) -> usize {
         let end = document_inspection_commands::get_document_stats(&inner.ctx)
             .map(|s| max_cursor_position(&s))
             .unwrap_or(pos);
@@ -2366,7 +2094,6 @@ impl TextCursor {
             Ok(r) => r.text,
             Err(_) => return pos + 1,
         };
-        drop(inner);
         match text.graphemes(true).next() {
             Some(g) if !g.is_empty() => (pos + g.chars().count()).min(end),
             _ => (pos + 1).min(end),
@@ -2374,13 +2101,12 @@ impl TextCursor {
     }
 
     /// Return the cursor position before the extended grapheme cluster
-    /// that ends at `pos`. Counterpart to [`Self::next_grapheme_boundary`].
+    /// that ends at `pos`. Counterpart to [`next_grapheme_boundary`].
     /// Crosses block separators one scalar at a time.
-    fn prev_grapheme_boundary(&self, pos: usize) -> usize {
+    fn prev_grapheme_boundary(inner: &TextDocumentInner, pos: usize) -> usize {
         if pos == 0 {
             return 0;
         }
-        let inner = self.doc.lock();
         let block_dto = frontend::document_inspection::GetBlockAtPositionDto {
             position: to_i64(pos.saturating_sub(1)),
         };
@@ -2410,7 +2136,6 @@ impl TextCursor {
             Ok(r) => r.text,
             Err(_) => return pos - 1,
         };
-        drop(inner);
         match text.graphemes(true).next_back() {
             Some(g) if !g.is_empty() => pos - g.chars().count(),
             _ => pos - 1,
@@ -2422,8 +2147,7 @@ impl TextCursor {
     ///
     /// Single-pass: tracks the last word seen to avoid a second iteration
     /// when the cursor is at the end of the last word (ISSUE-18).
-    fn find_word_boundaries(&self, pos: usize) -> (usize, usize) {
-        let inner = self.doc.lock();
+    fn find_word_boundaries(inner: &TextDocumentInner, pos: usize) -> (usize, usize) {
         // Get block info so we can fetch the full block text
         let block_dto = frontend::document_inspection::GetBlockAtPositionDto {
             position: to_i64(pos),
@@ -2478,3 +2202,167 @@ impl TextCursor {
         (pos, pos)
     }
 }
+
+/// The table cell that contains the given document position, if any.
+fn table_cell_at(inner: &TextDocumentInner, position: usize) -> Option<TableCellContext> {
+    let block_at = |position: usize| {
+        let dto = frontend::document_inspection::GetBlockAtPositionDto {
+            position: to_i64(position),
+        };
+        document_inspection_commands::get_block_at_position(&inner.ctx, &dto).ok()
+    };
+    // When position < block_start, the cursor sits on the separator between
+    // the previous block and this one. Visually the cursor belongs to the
+    // end of the previous block, so look up that block instead.
+    let mut block_info = block_at(position)?;
+    if to_i64(position) < block_info.block_start && position > 0 {
+        block_info = block_at(position - 1)?;
+    }
+    crate::text_block::find_table_cell_context(inner, block_info.block_id as u64)
+}
+
+/// Position and length of a block.
+fn block_extent(inner: &TextDocumentInner, block_id: u64) -> Option<(usize, usize)> {
+    let mut block = frontend::commands::block_commands::get_block(&inner.ctx, &block_id)
+        .ok()
+        .flatten()?;
+    let store = inner.ctx.db_context.get_store();
+    crate::inner::refresh_block_position(&mut block, store);
+    let start = to_usize(block.document_position);
+    let entity: common::entities::Block = block.into();
+    let length = common::database::rope_helpers::block_char_length(&entity, store);
+    Some((start, to_usize(length)))
+}
+
+/// A table's cells: `(row, col, row_span, col_span)` and the extents of the
+/// blocks in it.
+type CellExtents = ((usize, usize, usize, usize), Vec<(usize, usize)>);
+
+fn table_cells(inner: &TextDocumentInner, table_id: usize) -> Vec<CellExtents> {
+    let Some(table) = frontend::commands::table_commands::get_table(&inner.ctx, &(table_id as u64))
+        .ok()
+        .flatten()
+    else {
+        return Vec::new();
+    };
+    let cells = table.cells.iter().filter_map(|cell_id| {
+        frontend::commands::table_cell_commands::get_table_cell(&inner.ctx, cell_id)
+            .ok()
+            .flatten()
+    });
+    cells
+        .map(|cell| {
+            let frame = cell.cell_frame.and_then(|id| {
+                frontend::commands::frame_commands::get_frame(&inner.ctx, &id)
+                    .ok()
+                    .flatten()
+            });
+            let blocks = frame.map(|f| f.blocks).unwrap_or_default();
+            let span = (
+                cell.row as usize,
+                cell.column as usize,
+                cell.row_span.max(1) as usize,
+                cell.column_span.max(1) as usize,
+            );
+            let extents = blocks.iter().filter_map(|&id| block_extent(inner, id));
+            (span, extents.collect())
+        })
+        .collect()
+}
+
+/// `(row, col, row_span, col_span)` of all cells in a table.
+fn collect_cell_spans(
+    inner: &TextDocumentInner,
+    table_id: usize,
+) -> Vec<(usize, usize, usize, usize)> {
+    let cells = table_cells(inner, table_id);
+    cells.into_iter().map(|(span, _)| span).collect()
+}
+
+/// The range of all cells of a table.
+fn whole_table(inner: &TextDocumentInner, table_id: usize) -> CellRange {
+    let table = frontend::commands::table_commands::get_table(&inner.ctx, &(table_id as u64))
+        .ok()
+        .flatten();
+    let (rows, columns) = table
+        .map(|t| (to_usize(t.rows), to_usize(t.columns)))
+        .unwrap_or_default();
+    CellRange {
+        table_id,
+        start_row: 0,
+        start_col: 0,
+        end_row: rows.saturating_sub(1),
+        end_col: columns.saturating_sub(1),
+    }
+}
+
+/// Compute (min_position, max_position) spanning all blocks in a cell range.
+/// Returns `None` if the table or cells cannot be found.
+fn cell_range_positions(inner: &TextDocumentInner, range: &CellRange) -> Option<(usize, usize)> {
+    let in_range = |row: usize, col: usize| {
+        (range.start_row..=range.end_row).contains(&row)
+            && (range.start_col..=range.end_col).contains(&col)
+    };
+    let extents: Vec<(usize, usize)> = table_cells(inner, range.table_id)
+        .into_iter()
+        .filter(|((row, col, _, _), _)| in_range(*row, *col))
+        .flat_map(|(_, extents)| extents)
+        .collect();
+    let min_pos = extents.iter().map(|(start, _)| *start).min()?;
+    let max_pos = extents.iter().map(|(start, length)| start + length).max()?;
+    // Extend max_pos past the last block to ensure cross-cell detection
+    Some((min_pos, max_pos + 1))
+}
+
+/// Find the document position at the boundary of the block adjacent to a
+/// table. Used by the table-trap logic in `TextCursor::set_position`.
+///
+/// - `before == true`: returns the last position of the block immediately
+///   before the table (i.e. `block.position() + block.length()`).
+/// - `before == false`: returns the first position of the block immediately
+///   after the table.
+///
+/// Returns `None` when no adjacent block exists (table is first or last
+/// element in the flow).
+fn table_boundary_position(
+    inner: &TextDocumentInner,
+    flow: &[FlowElement],
+    table_id: usize,
+    before: bool,
+) -> Option<usize> {
+    let idx = flow
+        .iter()
+        .position(|e| matches!(e, FlowElement::Table(t) if t.id() == table_id))?;
+    let extent = |e: &FlowElement| match e {
+        FlowElement::Block(b) => block_extent(inner, b.id() as u64),
+        _ => None,
+    };
+    if before {
+        let (start, length) = flow[..idx].iter().rev().find_map(extent)?;
+        Some(start + length)
+    } else {
+        let (start, _) = flow[idx + 1..].iter().find_map(extent)?;
+        Some(start)
+    }
+}
+
+/// Find the first table whose cell blocks fall within the range `(start, end)`.
+fn find_table_between(
+    inner: &TextDocumentInner,
+    flow: &[FlowElement],
+    start: usize,
+    end: usize,
+) -> Option<usize> {
+    flow.iter().find_map(|e| match e {
+        FlowElement::Table(t) => {
+            // Check whether the first cell's block position is between
+            // the two endpoints (i.e. the table is inside the range).
+            let (_, first_cell) = table_cells(inner, t.id())
+                .into_iter()
+                .find(|((row, col, _, _), _)| (*row, *col) == (0, 0))?;
+            let p = first_cell.iter().map(|(start, _)| *start).min()?;
+            (p > start && p < end).then_some(t.id())
+        }
+        _ => None,
+    })
+}
diff --git a/crates/public_api/src/document.rs b/crates/public_api/src/document.rs
index c443ab1..2c0d6c5 100644
--- a/crates/public_api/src/document.rs
+++ b/crates/public_api/src/document.rs
@@ -364,15 +364,13 @@ impl TextDocument {
     /// forward to the end of the containing cluster so subsequent
     /// `NextCharacter`/`PreviousCharacter` round-trips remain identity.
     pub fn cursor_at(&self, position: usize) -> TextCursor {
-        let data = {
-            let mut inner = self.inner.lock();
-            inner.register_cursor(position)
-        };
+        let mut inner = self.inner.lock();
+        let data = inner.register_cursor(position);
         let cursor = TextCursor {
             doc: self.inner.clone(),
             data,
         };
-        cursor.snap_position_to_grapheme_boundary();
+        cursor.snap_position_to_grapheme_boundary(&inner);
         cursor
     }
 
diff --git a/crates/public_api/src/text_block.rs b/crates/public_api/src/text_block.rs
index 0a27122..090e61f 100644
--- a/crates/public_api/src/text_block.rs
+++ b/crates/public_api/src/text_block.rs
@@ -375,7 +375,10 @@ fn document_has_no_tables(inner: &TextDocumentInner) -> bool {
 
 /// Find table cell context for a block (snapshot-friendly, no live handles).
 /// Returns `None` if the block is not inside a table cell.
-fn find_table_cell_context(inner: &TextDocumentInner, block_id: u64) -> Option<TableCellContext> {
+pub(crate) fn find_table_cell_context(
+    inner: &TextDocumentInner,
+    block_id: u64,
+) -> Option<TableCellContext> {
     // Fast exit: a doc with no tables can't have any cell-bound blocks.
     // Avoids per-block `get_all_frame` + `get_all_table` walks during
     // snapshot_flow, which is called per editor pane on every keystroke.
-- 
2.43.0


From a8cbcd92bbd23a1f24e6c34357e24fcfa1849614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:16 +0000
Subject: [PATCH 48/55] fix: Backspace and Delete at the edge of a table cell
 leave the cells alone

---
 crates/public_api/src/cursor.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index 62c82a6..0e34522 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -1780,7 +1780,9 @@ impl TextCursor {
             let (pos, mut anchor) = self.read_cursor();
             if pos == anchor {
                 anchor = target(&inner, pos);
-                if anchor == pos {
+                // Nothing there, or the edge of a table cell: joining the
+                // text on its two sides is not what one key press means.
+                if anchor == pos || table_cell_at(&inner, pos) != table_cell_at(&inner, anchor) {
                     return Ok(());
                 }
             }
-- 
2.43.0


From 01532d147e01846c2b9b93860fe91e8e183a3328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:18 +0000
Subject: [PATCH 49/55] fix: clearing table cells does not merge into the undo
 step of a typed deletion

---
 crates/document_editing/src/use_cases/delete_text_uc.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/document_editing/src/use_cases/delete_text_uc.rs b/crates/document_editing/src/use_cases/delete_text_uc.rs
index 1e7ce2f..39fe27e 100644
--- a/crates/document_editing/src/use_cases/delete_text_uc.rs
+++ b/crates/document_editing/src/use_cases/delete_text_uc.rs
@@ -996,7 +996,7 @@ impl UndoRedoCommand for DeleteTextUseCase {
         else {
             return false;
         };
-        let (Some(other_dto), Some(_other_result), Some(other_time)) = (
+        let (Some(other_dto), Some(other_result), Some(other_time)) = (
             &other_cmd.last_dto,
             &other_cmd.last_result,
             &other_cmd.last_merge_time,
@@ -1011,6 +1011,11 @@ impl UndoRedoCommand for DeleteTextUseCase {
         if !self.is_single_char_origin {
             return false;
         }
+        // One position apart, but not one character: table cells were
+        // cleared or a table was removed.
+        if self_result.deleted_text.is_empty() || other_result.deleted_text.is_empty() {
+            return false;
+        }
         if (other_dto.position - other_dto.anchor).abs() != 1 {
             return false;
         }
-- 
2.43.0


From fd223a639b1b33e6b73846996c1e2ca1da1005f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:18 +0000
Subject: [PATCH 50/55] fix: removing the only table of a document leaves an
 empty block

---
 .../src/units_of_work/remove_table_uow.rs     |  1 +
 .../src/use_cases/remove_table_uc.rs          | 28 ++++++++++++++++++-
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/crates/document_editing/src/units_of_work/remove_table_uow.rs b/crates/document_editing/src/units_of_work/remove_table_uow.rs
index 144e90f..11fb039 100644
--- a/crates/document_editing/src/units_of_work/remove_table_uow.rs
+++ b/crates/document_editing/src/units_of_work/remove_table_uow.rs
@@ -99,6 +99,7 @@ impl CommandUnitOfWork for RemoveTableUnitOfWork {
 #[macros::uow_action(entity = "Frame", action = "Update")]
 #[macros::uow_action(entity = "Frame", action = "Remove")]
 #[macros::uow_action(entity = "Frame", action = "GetRelationship")]
+#[macros::uow_action(entity = "Block", action = "Create")]
 #[macros::uow_action(entity = "Block", action = "GetMulti")]
 #[macros::uow_action(entity = "Block", action = "UpdateMulti")]
 #[macros::uow_action(entity = "Table", action = "Get")]
diff --git a/crates/document_editing/src/use_cases/remove_table_uc.rs b/crates/document_editing/src/use_cases/remove_table_uc.rs
index 79cf562..114ef01 100644
--- a/crates/document_editing/src/use_cases/remove_table_uc.rs
+++ b/crates/document_editing/src/use_cases/remove_table_uc.rs
@@ -28,6 +28,7 @@ pub trait RemoveTableUnitOfWorkFactoryTrait: Send + Sync {
 #[macros::uow_action(entity = "Frame", action = "Update")]
 #[macros::uow_action(entity = "Frame", action = "Remove")]
 #[macros::uow_action(entity = "Frame", action = "GetRelationship")]
+#[macros::uow_action(entity = "Block", action = "Create")]
 #[macros::uow_action(entity = "Block", action = "GetMulti")]
 #[macros::uow_action(entity = "Block", action = "UpdateMulti")]
 #[macros::uow_action(entity = "Table", action = "Get")]
@@ -39,6 +40,7 @@ pub trait RemoveTableUnitOfWorkTrait: CommandUnitOfWork {}
 pub struct RemoveTableUseCase {
     uow_factory: Box<dyn RemoveTableUnitOfWorkFactoryTrait>,
     undo_snapshot: Option<EntityTreeSnapshot>,
+    redo_snapshot: Option<EntityTreeSnapshot>,
     last_dto: Option<RemoveTableDto>,
 }
 
@@ -182,9 +184,26 @@ fn execute_remove_table(
         }
     }
 
+    // A document always has a block.
+    let mut blocks_added = 0;
+    if document.block_count == total_cell_blocks
+        && let Some(main_frame_id) = frame_ids.first()
+    {
+        let created = uow.create_block(&Block::default(), *main_frame_id, -1)?;
+        let mut main_frame = uow
+            .get_frame(main_frame_id)?
+            .ok_or_else(|| anyhow!("Frame not found"))?;
+        main_frame.child_order.push(created.id as i64);
+        main_frame.updated_at = now;
+        uow.update_frame(&main_frame)?;
+        common::database::rope_helpers::rope_reset(&uow.store());
+        common::database::rope_helpers::rope_append_empty_block(&uow.store(), created.id);
+        blocks_added = 1;
+    }
+
     // Update Document stats
     let mut updated_doc = document.clone();
-    updated_doc.block_count -= total_cell_blocks;
+    updated_doc.block_count -= total_cell_blocks - blocks_added;
     updated_doc.character_count -= total_cell_chars;
     updated_doc.updated_at = now;
     uow.update_document(&updated_doc)?;
@@ -197,6 +216,7 @@ impl RemoveTableUseCase {
         RemoveTableUseCase {
             uow_factory,
             undo_snapshot: None,
+            redo_snapshot: None,
             last_dto: None,
         }
     }
@@ -224,6 +244,8 @@ impl UndoRedoCommand for RemoveTableUseCase {
 
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
+        // Redo brings back this very state, block ids included.
+        self.redo_snapshot = Some(uow.snapshot_document(&[])?);
         uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
@@ -238,6 +260,10 @@ impl UndoRedoCommand for RemoveTableUseCase {
 
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
+        if let Some(snapshot) = self.redo_snapshot.take() {
+            uow.restore_document(&snapshot)?;
+            return uow.commit();
+        }
         let snapshot = execute_remove_table(&mut uow, &dto)?;
         self.undo_snapshot = Some(snapshot);
         uow.commit()?;
-- 
2.43.0


From 9c133a8ae844045304d5d4a35a8ba7db19e435da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:18 +0000
Subject: [PATCH 51/55] fix: block positions in documents with tables are up to
 date after every command

---
 crates/common/src/database/rope_helpers.rs | 92 ++++++++++++++++++++++
 crates/common/src/database/transactions.rs |  1 +
 2 files changed, 93 insertions(+)

diff --git a/crates/common/src/database/rope_helpers.rs b/crates/common/src/database/rope_helpers.rs
index c770604..009c23e 100644
--- a/crates/common/src/database/rope_helpers.rs
+++ b/crates/common/src/database/rope_helpers.rs
@@ -124,6 +124,98 @@ pub fn store_rope_positions(store: &Store) {
     }
 }
 
+/// Write the flow-order `document_position` of every block back to the
+/// store, for documents with tables or sub-frames.
+///
+/// In such documents readers get the stored field, so it must be brought
+/// up to date whenever a change becomes permanent. No-op when positions
+/// are derived from the rope.
+pub fn store_flow_positions(store: &Store) {
+    if rope_positions_match_flow(store) {
+        return;
+    }
+    let main_frame = {
+        let documents = store.documents.read().unwrap();
+        documents
+            .values()
+            .next()
+            .and_then(|document| document.frames.first().copied())
+    };
+    let mut flow = Vec::new();
+    if let Some(main_frame) = main_frame {
+        collect_flow_blocks(store, main_frame, &mut flow);
+    }
+
+    let mut position = 0;
+    for block_id in flow {
+        let block = store.blocks.read().unwrap().get(&block_id).cloned();
+        let Some(mut block) = block else {
+            continue;
+        };
+        let length = block_char_length(&block, store);
+        if block.document_position != position {
+            block.document_position = position;
+            store.blocks.write().unwrap().insert(block_id, block);
+        }
+        position += length + 1;
+    }
+}
+
+/// Blocks of a frame in flow order, with the cells of a table in
+/// row-major order at the place of the table.
+fn collect_flow_blocks(store: &Store, frame_id: EntityId, flow: &mut Vec<EntityId>) {
+    let Some((mut own_blocks, child_order)) = ({
+        let frames = store.frames.read().unwrap();
+        frames
+            .get(&frame_id)
+            .map(|frame| (frame.blocks.clone(), frame.child_order.clone()))
+    }) else {
+        return;
+    };
+    if child_order.is_empty() {
+        let blocks = store.blocks.read().unwrap();
+        own_blocks.sort_by_key(|id| blocks.get(id).map(|block| block.document_position));
+        flow.extend(own_blocks);
+        return;
+    }
+    for entry in child_order {
+        if entry > 0 {
+            flow.push(entry as EntityId);
+            continue;
+        }
+        let child_id = (-entry) as EntityId;
+        let table_id = {
+            let frames = store.frames.read().unwrap();
+            frames.get(&child_id).and_then(|frame| frame.table)
+        };
+        match table_id {
+            Some(table_id) => {
+                for cell_frame in cell_frames_in_row_major_order(store, table_id) {
+                    collect_flow_blocks(store, cell_frame, flow);
+                }
+            }
+            None => collect_flow_blocks(store, child_id, flow),
+        }
+    }
+}
+
+fn cell_frames_in_row_major_order(store: &Store, table_id: EntityId) -> Vec<EntityId> {
+    let cell_ids = {
+        let tables = store.tables.read().unwrap();
+        tables
+            .get(&table_id)
+            .map(|table| table.cells.clone())
+            .unwrap_or_default()
+    };
+    let cells_by_id = store.table_cells.read().unwrap();
+    let mut cells: Vec<_> = cell_ids
+        .iter()
+        .filter_map(|id| cells_by_id.get(id))
+        .collect();
+    cells.sort_by_key(|cell| (cell.row, cell.column));
+    cells.iter().filter_map(|cell| cell.cell_frame).collect()
+}
+
 /// Locate which block contains a given absolute char position in the
 /// document, returning `(block_id, char_offset_in_block, block_char_start)`
 /// in O(log n) using the rope + `BlockOffsetIndex` instead of an O(N)
diff --git a/crates/common/src/database/transactions.rs b/crates/common/src/database/transactions.rs
index 3e3b035..df83730 100644
--- a/crates/common/src/database/transactions.rs
+++ b/crates/common/src/database/transactions.rs
@@ -40,6 +40,7 @@ impl Transaction {
         // Plan §1.6: refresh Frame.byte_range from current rope state
         // before the mutations become permanent. No-op under default.
         crate::database::rope_helpers::recompute_all_frame_byte_ranges(&self.store);
+        crate::database::rope_helpers::store_flow_positions(&self.store);
         // Discard the auto-savepoint — mutations are now permanent
         if let Some(sp) = self.savepoint.take() {
             self.store.discard_savepoint(sp);
-- 
2.43.0


From 074478d8fb97e9f1eec02a8c691a64d6ec6c4387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:18 +0000
Subject: [PATCH 52/55] fix: cursors stay in the document when an edit clears
 table cells

---
 crates/public_api/src/cursor.rs | 100 ++++++++++++++++++++++----------
 crates/public_api/src/inner.rs  |  22 +++++--
 2 files changed, 86 insertions(+), 36 deletions(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index 0e34522..aed088f 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -90,6 +90,37 @@ impl TextCursor {
         (d.position, d.anchor)
     }
 
+    /// [`read_cursor`](Self::read_cursor) for an edit that replaces the
+    /// selection and ends in [`finish_edit`](Self::finish_edit).
+    fn begin_edit(&self, inner: &mut TextDocumentInner) -> (usize, usize) {
+        let (pos, anchor) = self.read_cursor();
+        self.prepare_removal(inner, pos, anchor);
+        (pos, anchor)
+    }
+
+    /// Remember where the blocks are if removing the range needs it.
+    fn prepare_removal(&self, inner: &mut TextDocumentInner, pos: usize, anchor: usize) {
+        inner.extents_before_edit = self
+            .reaches_across_cells(inner, pos, anchor)
+            .then(|| inner.block_extents());
+    }
+
+    /// Whether a range reaches into, out of or across a table, or from one
+    /// of its cells into another. Removing it is not removing the text from
+    /// the one end to the other: cells are cleared as a whole.
+    fn reaches_across_cells(&self, inner: &TextDocumentInner, pos: usize, anchor: usize) -> bool {
+        if pos == anchor {
+            return false;
+        }
+        match (table_cell_at(inner, pos), table_cell_at(inner, anchor)) {
+            (None, None) => {
+                let (start, end) = (pos.min(anchor), pos.max(anchor));
+                find_table_between(inner, &self.main_flow(inner), start, end).is_some()
+            }
+            (from, to) => from != to,
+        }
+    }
+
     /// The elements of the main flow.
     fn main_flow(&self, inner: &TextDocumentInner) -> Vec<FlowElement> {
         crate::text_frame::build_flow_elements(inner, &self.doc, get_main_frame_id(inner))
@@ -149,21 +180,10 @@ impl TextCursor {
         blocks_affected: usize,
         flow_may_change: bool,
     ) -> QueuedEvents {
-        inner.adjust_cursors(edit_pos, removed, added);
-        {
-            let mut d = self.data.lock();
-            d.position = new_pos;
-            d.anchor = new_pos;
-        }
+        self.move_cursors(inner, edit_pos, removed, added, new_pos, blocks_affected);
         inner.modified = true;
         inner.invalidate_text_cache();
         inner.rehighlight_affected(edit_pos);
-        inner.queue_event(DocumentEvent::ContentsChanged {
-            position: edit_pos,
-            chars_removed: removed,
-            chars_added: added,
-            blocks_affected,
-        });
         inner.check_block_count_changed();
         if flow_may_change {
             inner.check_flow_changed();
@@ -171,6 +191,36 @@ impl TextCursor {
         self.queue_undo_redo_event(inner)
     }
 
+    /// Move all cursors along with an edit, this one to `new_pos`, and tell
+    /// listeners what has changed.
+    fn move_cursors(
+        &self,
+        inner: &mut TextDocumentInner,
+        edit_pos: usize,
+        removed: usize,
+        added: usize,
+        new_pos: usize,
+        blocks_affected: usize,
+    ) {
+        match inner.extents_before_edit.take() {
+            Some(before) => inner.follow_block_moves(&before, Some((edit_pos, edit_pos + removed))),
+            None => {
+                inner.adjust_cursors(edit_pos, removed, added);
+                inner.queue_event(DocumentEvent::ContentsChanged {
+                    position: edit_pos,
+                    chars_removed: removed,
+                    chars_added: added,
+                    blocks_affected,
+                });
+            }
+        }
+        {
+            let mut d = self.data.lock();
+            d.position = new_pos;
+            d.anchor = new_pos;
+        }
+    }
+
     // ── Position & selection ─────────────────────────────────
 
     /// Current cursor position (between characters).
@@ -429,7 +479,7 @@ impl TextCursor {
     pub fn insert_text(&self, text: &str) -> Result<()> {
         let queued = {
             let mut inner = self.doc.lock();
-            let (pos, anchor) = self.read_cursor();
+            let (pos, anchor) = self.begin_edit(&mut inner);
 
             // Try direct insert first (handles same-block selection and no-selection cases)
             let dto = frontend::document_editing::InsertTextDto {
@@ -508,7 +558,7 @@ impl TextCursor {
 
         let queued = {
             let mut inner = self.doc.lock();
-            let (pos, anchor) = self.read_cursor();
+            let (pos, anchor) = self.begin_edit(&mut inner);
             let result = match document_editing_commands::insert_formatted_text(
                 &inner.ctx,
                 Some(inner.stack_id),
@@ -563,7 +613,7 @@ impl TextCursor {
     pub fn insert_block(&self) -> Result<()> {
         let queued = {
             let mut inner = self.doc.lock();
-            let (pos, anchor) = self.read_cursor();
+            let (pos, anchor) = self.begin_edit(&mut inner);
 
             let (insert_pos, removed) = if pos != anchor {
                 // Selection active: delete first, then split (Word convention)
@@ -632,7 +682,7 @@ impl TextCursor {
     pub fn insert_fragment(&self, fragment: &DocumentFragment) -> Result<()> {
         let queued = {
             let mut inner = self.doc.lock();
-            let (pos, anchor) = self.read_cursor();
+            let (pos, anchor) = self.begin_edit(&mut inner);
             let end_before = document_end(&inner);
 
             let (insert_pos, removed) = if pos != anchor {
@@ -745,7 +795,7 @@ impl TextCursor {
     pub fn insert_image(&self, name: &str, width: u32, height: u32) -> Result<()> {
         let queued = {
             let mut inner = self.doc.lock();
-            let (pos, anchor) = self.read_cursor();
+            let (pos, anchor) = self.begin_edit(&mut inner);
 
             let (insert_pos, removed) = if pos != anchor {
                 undo_redo_commands::begin_composite(&inner.ctx, Some(inner.stack_id));
@@ -899,7 +949,7 @@ impl TextCursor {
             let mut inner = self.doc.lock();
             let before = inner.block_extents();
             let (result, new_pos) = command(&inner)?;
-            inner.follow_block_moves(&before);
+            inner.follow_block_moves(&before, None);
             if let Some(new_pos) = new_pos {
                 let mut d = self.data.lock();
                 d.position = new_pos;
@@ -1801,6 +1851,7 @@ impl TextCursor {
         pos: usize,
         anchor: usize,
     ) -> Result<String> {
+        self.prepare_removal(inner, pos, anchor);
         let dto = frontend::document_editing::DeleteTextDto {
             position: to_i64(pos),
             anchor: to_i64(anchor),
@@ -1810,21 +1861,10 @@ impl TextCursor {
         let edit_pos = pos.min(anchor);
         let removed = pos.max(anchor) - edit_pos;
         let new_pos = to_usize(result.new_position);
-        inner.adjust_cursors(edit_pos, removed, 0);
-        {
-            let mut d = self.data.lock();
-            d.position = new_pos;
-            d.anchor = new_pos;
-        }
+        self.move_cursors(inner, edit_pos, removed, 0, new_pos, 1);
         inner.modified = true;
         inner.invalidate_text_cache();
         inner.rehighlight_affected(edit_pos);
-        inner.queue_event(DocumentEvent::ContentsChanged {
-            position: edit_pos,
-            chars_removed: removed,
-            chars_added: 0,
-            blocks_affected: 1,
-        });
         inner.check_block_count_changed();
         inner.check_flow_changed();
         Ok(result.deleted_text)
diff --git a/crates/public_api/src/inner.rs b/crates/public_api/src/inner.rs
index 3c4d1e4..693a468 100644
--- a/crates/public_api/src/inner.rs
+++ b/crates/public_api/src/inner.rs
@@ -68,6 +68,10 @@ pub(crate) struct TextDocumentInner {
     // Cursor tracking
     pub cursors: Vec<Weak<Mutex<CursorData>>>,
 
+    // Where the blocks were before the edit in progress, if it reaches
+    // across table cells and cursors have to follow their blocks.
+    pub extents_before_edit: Option<Vec<BlockExtent>>,
+
     // Event dispatch — two independent delivery paths:
     //
     // 1. **Callback path** (`on_change`): `take_queued_events()` reads from
@@ -161,10 +165,10 @@ impl TextDocumentInner {
     /// the block it was in, and queue a `ContentsChanged` event for the part
     /// of the document between the first and the last difference. A cursor
     /// whose block is gone moves to the end of the last block before it that
-    /// is left.
-    pub fn follow_block_moves(&mut self, before: &[BlockExtent]) {
+    /// is left. Blocks at the `edited` positions count as different.
+    pub fn follow_block_moves(&mut self, before: &[BlockExtent], edited: Option<(usize, usize)>) {
         let after = self.block_extents();
-        let new_start: HashMap<EntityId, usize> = after.iter().map(|b| (b.id, b.start)).collect();
+        let now: HashMap<EntityId, &BlockExtent> = after.iter().map(|b| (b.id, b)).collect();
         let follow = |pos: usize| {
             let index = before.partition_point(|b| b.start <= pos);
             let reached = &before[..index];
@@ -172,8 +176,8 @@ impl TextDocumentInner {
                 .iter()
                 .rev()
                 .find_map(|b| {
-                    let start = new_start.get(&b.id)?;
-                    Some(start + (pos - b.start).min(b.length))
+                    let a = now.get(&b.id)?;
+                    Some(a.start + (pos - b.start).min(b.length).min(a.length))
                 })
                 .unwrap_or(0)
         };
@@ -187,7 +191,12 @@ impl TextDocumentInner {
             }
         }
 
-        let same = |(b, a): &(&BlockExtent, &BlockExtent)| b.id == a.id && b.length == a.length;
+        let is_edited = |b: &BlockExtent| {
+            edited.is_some_and(|(start, end)| b.start <= end && start <= b.start + b.length)
+        };
+        let same = |(b, a): &(&BlockExtent, &BlockExtent)| {
+            b.id == a.id && b.length == a.length && !is_edited(b)
+        };
         let prefix = before.iter().zip(&after).take_while(same).count();
         let (old, new) = (&before[prefix..], &after[prefix..]);
         let suffix = old
@@ -543,6 +552,7 @@ impl TextDocumentInner {
             document_id: doc.id,
             modified: false,
             cursors: Vec::new(),
+            extents_before_edit: None,
             pending_events: Vec::new(),
             callbacks: Vec::new(),
             callback_cursor: 0,
-- 
2.43.0


From 891d33dae175462ea97b4fcd61712b2e7b3ad4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:18 +0000
Subject: [PATCH 53/55] fix: the plain text of a document with tables is in
 document order

---
 .../src/use_cases/export_plain_text_uc.rs     | 26 +++++++------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/crates/document_io/src/use_cases/export_plain_text_uc.rs b/crates/document_io/src/use_cases/export_plain_text_uc.rs
index d0f4684..53aaad0 100644
--- a/crates/document_io/src/use_cases/export_plain_text_uc.rs
+++ b/crates/document_io/src/use_cases/export_plain_text_uc.rs
@@ -64,28 +64,22 @@ impl ExportPlainTextUseCase {
         // Slow path: tables or multi-frame documents require the
         // per-frame, per-block traversal because cell content lives in
         // separate byte ranges later in the rope (plan §1.6).
-        let mut all_plain_texts: Vec<String> = Vec::new();
-
+        // The text is in the order of the document, whatever frame or table
+        // cell a block is in.
+        let mut blocks: Vec<Block> = Vec::new();
         for frame_id in &frame_ids {
-            // Get Block IDs from the Frame.Blocks relationship
             let block_ids = uow.get_frame_relationship(
                 frame_id,
                 &common::direct_access::frame::FrameRelationshipField::Blocks,
             )?;
-
-            if block_ids.is_empty() {
-                continue;
-            }
-
-            // Get all blocks in batch and sort by document_position
-            let blocks_opt = uow.get_block_multi(&block_ids)?;
-            let mut blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
-            blocks.sort_by_key(|b| b.document_position);
-
-            for block in &blocks {
-                all_plain_texts.push(block_content_via_store(block, &store));
-            }
+            blocks.extend(uow.get_block_multi(&block_ids)?.into_iter().flatten());
         }
+        blocks.sort_by_key(|b| b.document_position);
+
+        let all_plain_texts: Vec<String> = blocks
+            .iter()
+            .map(|block| block_content_via_store(block, &store))
+            .collect();
 
         let plain_text = all_plain_texts.join("\n");
 
-- 
2.43.0


From cb3237b5e82452928fd74a6aa206bab488c4207e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:55 +0000
Subject: [PATCH 54/55] fix: a fragment pasted into a document with tables
 stays where it is pasted

---
 .../src/use_cases/insert_fragment_uc.rs       | 38 ++++++++++++++-----
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/crates/document_editing/src/use_cases/insert_fragment_uc.rs b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
index d8ab6c5..498d7cc 100644
--- a/crates/document_editing/src/use_cases/insert_fragment_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
@@ -244,6 +244,21 @@ fn build_block_to_cell_map(
     Ok(map)
 }
 
+/// Where what follows a block goes in its frame: the index among the frame's
+/// blocks and the one in its child order. Blocks of other frames do not count.
+fn index_after(frame: &Frame, frame_block_ids: &[EntityId], block_id: EntityId) -> (usize, usize) {
+    let block_index = frame_block_ids
+        .iter()
+        .position(|&id| id == block_id)
+        .map_or(frame_block_ids.len(), |i| i + 1);
+    let child_index = frame
+        .child_order
+        .iter()
+        .position(|&entry| entry == block_id as i64)
+        .map_or(frame.child_order.len(), |i| i + 1);
+    (block_index, child_index)
+}
+
 /// Replace cell contents in an existing table with fragment data.
 /// Returns Ok(Some(result)) if replacement was performed, Ok(None) if not applicable.
 fn try_replace_table_cells(
@@ -851,6 +866,8 @@ fn insert_mixed_fragment(
     let frame = uow
         .get_frame(&frame_id)?
         .ok_or_else(|| anyhow!("Frame not found"))?;
+    let frame_block_ids = uow.get_frame_relationship(&frame_id, &FrameRelationshipField::Blocks)?;
+    let (_, child_index) = index_after(&frame, &frame_block_ids, current_block.id);
 
     let store = uow.store();
     let (current_runs, current_images) = (
@@ -1467,7 +1484,7 @@ fn insert_mixed_fragment(
     }
 
     let mut updated_frame = frame.clone();
-    let child_order_insert_pos = (block_idx + 1).min(updated_frame.child_order.len());
+    let child_order_insert_pos = child_index;
     for (i, entry) in new_child_order_entries.iter().enumerate() {
         updated_frame
             .child_order
@@ -1609,6 +1626,8 @@ fn execute_insert_fragment(
     let frame = uow
         .get_frame(&frame_id)?
         .ok_or_else(|| anyhow!("Frame not found"))?;
+    let frame_block_ids = uow.get_frame_relationship(&frame_id, &FrameRelationshipField::Blocks)?;
+    let (block_index, child_index) = index_after(&frame, &frame_block_ids, current_block.id);
 
     let store = uow.store();
     let (current_runs, current_images) = (
@@ -1895,7 +1914,7 @@ fn execute_insert_fragment(
                 fmt_code_language: frag_block.code_language.clone(),
             };
 
-            let insert_index = (block_idx + 1 + new_block_ids.len()) as i32;
+            let insert_index = (block_index + new_block_ids.len()) as i32;
             let created_block = uow.create_block(&new_block, frame_id, insert_index)?;
             write_block_state(uow, created_block.id, runs, images);
 
@@ -2017,7 +2036,7 @@ fn execute_insert_fragment(
                 },
             };
 
-            let tail_insert_index = (block_idx + 1 + new_block_ids.len()) as i32;
+            let tail_insert_index = (block_index + new_block_ids.len()) as i32;
             let created_tail = uow.create_block(&tail_block, frame_id, tail_insert_index)?;
             tail_text_len = tail_text_length;
             created_tail_id = Some(created_tail.id);
@@ -2025,7 +2044,7 @@ fn execute_insert_fragment(
         }
 
         let mut updated_frame = frame.clone();
-        let child_order_insert_pos = (block_idx + 1).min(updated_frame.child_order.len());
+        let child_order_insert_pos = child_index;
         let mut new_child_ids: Vec<i64> = new_block_ids.iter().map(|id| *id as i64).collect();
         if let Some(tid) = created_tail_id {
             new_child_ids.push(tid as i64);
@@ -2213,8 +2232,7 @@ fn execute_insert_fragment(
                     fmt_code_language: None,
                 };
 
-                let created_tail =
-                    uow.create_block(&tail_block, frame_id, (block_idx + 1) as i32)?;
+                let created_tail = uow.create_block(&tail_block, frame_id, block_index as i32)?;
                 tail_text_len = block_char_length(&created_tail, &store);
                 blocks_added = 1;
                 created_tail_id_overwrite = Some(created_tail.id);
@@ -2226,7 +2244,7 @@ fn execute_insert_fragment(
                 );
 
                 let mut updated_frame = frame.clone();
-                let child_order_insert_pos = (block_idx + 1).min(updated_frame.child_order.len());
+                let child_order_insert_pos = child_index;
                 updated_frame
                     .child_order
                     .insert(child_order_insert_pos, created_tail.id as i64);
@@ -2351,7 +2369,7 @@ fn execute_insert_fragment(
                 fmt_code_language: frag_block.code_language.clone(),
             };
 
-            let created_block = uow.create_block(&new_block, frame_id, (block_idx + 1) as i32)?;
+            let created_block = uow.create_block(&new_block, frame_id, block_index as i32)?;
             write_block_state(uow, created_block.id, block_runs, block_images);
 
             running_position += block_text_len + 1;
@@ -2381,7 +2399,7 @@ fn execute_insert_fragment(
                 fmt_code_language: current_block.fmt_code_language.clone(),
             };
 
-            let created_tail = uow.create_block(&tail_block, frame_id, (block_idx + 2) as i32)?;
+            let created_tail = uow.create_block(&tail_block, frame_id, (block_index + 1) as i32)?;
             write_block_state(
                 uow,
                 created_tail.id,
@@ -2390,7 +2408,7 @@ fn execute_insert_fragment(
             );
 
             let mut updated_frame = frame.clone();
-            let child_order_insert_pos = (block_idx + 1).min(updated_frame.child_order.len());
+            let child_order_insert_pos = child_index;
             let new_child_ids = [created_block.id as i64, created_tail.id as i64];
             for (i, id) in new_child_ids.iter().enumerate() {
                 updated_frame
-- 
2.43.0


From fff871b54c00bb833867a23745ce4f9d80c3c2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:55 +0000
Subject: [PATCH 55/55] fix: copying inside a table cell takes the text once

---
 .../document_inspection/src/use_cases/extract_fragment_uc.rs   | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/document_inspection/src/use_cases/extract_fragment_uc.rs b/crates/document_inspection/src/use_cases/extract_fragment_uc.rs
index f52f1e5..05586ce 100644
--- a/crates/document_inspection/src/use_cases/extract_fragment_uc.rs
+++ b/crates/document_inspection/src/use_cases/extract_fragment_uc.rs
@@ -102,6 +102,9 @@ impl ExtractFragmentUseCase {
         for frame_id in &frame_ids {
             collect_block_ids_recursive_ro(&*uow, frame_id, &mut all_block_ids)?;
         }
+        // A nested frame is reached from its parent and by itself.
+        let mut seen: HashSet<EntityId> = HashSet::new();
+        all_block_ids.retain(|id| seen.insert(*id));
 
         let blocks_opt = uow.get_block_multi(&all_block_ids)?;
         let mut blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
-- 
2.43.0

