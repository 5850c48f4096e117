From 51cceb3951d8e4eae9b8dc951dac331aee1beb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:52 +0000
Subject: [PATCH 01/33] fix: write the sign of a negative decimal partition
 value once in Delta tables

---
 crates/sail-delta-lake/src/conversion/scalar.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/sail-delta-lake/src/conversion/scalar.rs b/crates/sail-delta-lake/src/conversion/scalar.rs
index ef153b5..2d229cc 100644
--- a/crates/sail-delta-lake/src/conversion/scalar.rs
+++ b/crates/sail-delta-lake/src/conversion/scalar.rs
@@ -493,10 +493,14 @@ fn serialize_decimal(bits: i128, scale: i8) -> String {
     match scale.cmp(&0) {
         Ordering::Equal => bits.to_string(),
         Ordering::Greater => {
-            let value = bits;
+            // Format the magnitude so that the sign appears once, in front of the whole number.
+            let value = bits.unsigned_abs();
             let scale_u32 = scale as u32;
-            let scalar_multiple = 10_i128.pow(scale_u32);
+            let scalar_multiple = 10_u128.pow(scale_u32);
             let mut string = String::new();
+            if bits < 0 {
+                string.push('-');
+            }
             string.push_str((value / scalar_multiple).to_string().as_str());
             string.push('.');
             string.push_str(&format!(
-- 
2.43.0


From cc83e4d99c5647b7454451125a03a05c92c448c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:29 +0000
Subject: [PATCH 02/33] fix: record no Delta statistics for list columns, whose
 footer null counts are of elements

---
 crates/sail-delta-lake/src/writer/stats.rs | 37 ++--------------------
 1 file changed, 2 insertions(+), 35 deletions(-)

diff --git a/crates/sail-delta-lake/src/writer/stats.rs b/crates/sail-delta-lake/src/writer/stats.rs
index cff2000..cf97bcb 100644
--- a/crates/sail-delta-lake/src/writer/stats.rs
+++ b/crates/sail-delta-lake/src/writer/stats.rs
@@ -32,7 +32,6 @@ use parquet::file::metadata::{ParquetMetaData, RowGroupMetaData};
 use parquet::file::statistics::Statistics;
 use parquet::schema::types::{ColumnDescriptor, SchemaDescriptor};
 use parquet_variant::{ObjectBuilder, VariantBuilder};
-use sail_common::spec::SAIL_LIST_FIELD_NAME;
 
 use crate::conversion::ScalarExt;
 use crate::deletion_vector::z85;
@@ -723,33 +722,6 @@ impl AddAssign for AggregatedStats {
     }
 }
 
-/// For list fields, extract the correct field name by removing list/element segments
-fn get_list_field_name(column_descr: &Arc<ColumnDescriptor>) -> Option<String> {
-    let max_rep_levels = column_descr.max_rep_level();
-    let column_path_parts = column_descr.path().parts();
-
-    if column_path_parts.len() > (2 * max_rep_levels + 1) as usize {
-        return None;
-    }
-
-    let mut column_path_parts = column_path_parts.to_vec();
-    let mut items_seen = 0;
-    let mut lists_seen = 0;
-    while let Some(part) = column_path_parts.pop() {
-        match (part.as_str(), lists_seen, items_seen) {
-            ("list", seen, _) if seen == max_rep_levels => return Some("list".to_string()),
-            ("element", _, seen) if seen == max_rep_levels => return Some("element".to_string()),
-            (SAIL_LIST_FIELD_NAME, _, seen) if seen == max_rep_levels => {
-                return Some(SAIL_LIST_FIELD_NAME.to_string());
-            }
-            ("list", _, _) => lists_seen += 1,
-            ("element", _, _) | (SAIL_LIST_FIELD_NAME, _, _) => items_seen += 1,
-            (other, _, _) => return Some(other.to_string()),
-        }
-    }
-    None
-}
-
 fn apply_min_max_for_column(
     statistics: AggregatedStats,
     column_descr: Arc<ColumnDescriptor>,
@@ -758,14 +730,9 @@ fn apply_min_max_for_column(
     max_values: &mut HashMap<String, ColumnValueStat>,
     null_counts: &mut HashMap<String, ColumnCountStat>,
 ) -> Result<(), DeltaTableError> {
-    // Special handling for list column
+    // The footer counts the null elements and the empty lists of a repeated leaf, which say
+    // nothing about how many values of the column are null. Record no statistics for it.
     if column_descr.max_rep_level() > 0 {
-        let key = get_list_field_name(&column_descr);
-
-        if let Some(key) = key {
-            null_counts.insert(key, ColumnCountStat::Value(statistics.null_count as i64));
-        }
-
         return Ok(());
     }
 
-- 
2.43.0


From 2c96cad485f341e7f563b956b775c4151478929d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:26 +0000
Subject: [PATCH 03/33] fix: cast nested types when a Delta replaceWhere unions
 new and retained rows

---
 .../src/physical_plan/planner/utils.rs         | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/crates/sail-delta-lake/src/physical_plan/planner/utils.rs b/crates/sail-delta-lake/src/physical_plan/planner/utils.rs
index 53ce632..72b0f9b 100644
--- a/crates/sail-delta-lake/src/physical_plan/planner/utils.rs
+++ b/crates/sail-delta-lake/src/physical_plan/planner/utils.rs
@@ -18,7 +18,7 @@ use datafusion::common::{
 };
 use datafusion::logical_expr::Expr;
 use datafusion::logical_expr::expr::{Case, Cast, ScalarFunction};
-use datafusion::physical_expr::expressions::Column;
+use datafusion::physical_expr::expressions::{CastExpr, Column};
 use datafusion::physical_expr::{LexRequirement, PhysicalExpr};
 use datafusion::physical_expr_adapter::PhysicalExprAdapterFactory;
 use datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec;
@@ -340,17 +340,23 @@ pub fn align_schemas_for_union(
     let mut old_projections = Vec::new();
 
     for (i, field) in new_schema.fields().iter().enumerate() {
-        new_projections.push((
-            Arc::new(Column::new(field.name(), i)) as Arc<dyn PhysicalExpr>,
-            field.name().clone(),
-        ));
+        let mut new_expr = Arc::new(Column::new(field.name(), i)) as Arc<dyn PhysicalExpr>;
 
-        if let Some((old_idx, _)) = old_schema
+        if let Some((old_idx, old_field)) = old_schema
             .fields()
             .iter()
             .enumerate()
             .find(|(_, old_field)| old_field.name() == field.name())
         {
+            // The union requires equal types. The same nested type can have different
+            // inner field names or nullability in the input and in the table.
+            if field.data_type() != old_field.data_type()
+                && field.data_type().is_nested()
+                && old_field.data_type().is_nested()
+            {
+                new_expr = Arc::new(CastExpr::new(new_expr, old_field.data_type().clone(), None));
+            }
+            new_projections.push((new_expr, field.name().clone()));
             old_projections.push((
                 Arc::new(Column::new(field.name(), old_idx)) as Arc<dyn PhysicalExpr>,
                 field.name().clone(),
-- 
2.43.0


From 607edb507e842e5358bc47b43c5bfbcb82d3307c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:26 +0000
Subject: [PATCH 04/33] fix: record no Delta decimal statistics that a JSON
 number cannot hold exactly

---
 crates/sail-delta-lake/src/writer/stats.rs | 56 +++++++++++++---------
 1 file changed, 34 insertions(+), 22 deletions(-)

diff --git a/crates/sail-delta-lake/src/writer/stats.rs b/crates/sail-delta-lake/src/writer/stats.rs
index cf97bcb..c98fbc4 100644
--- a/crates/sail-delta-lake/src/writer/stats.rs
+++ b/crates/sail-delta-lake/src/writer/stats.rs
@@ -499,8 +499,7 @@ impl StatsScalar {
                 Ok(Self::Date(date))
             }
             (Statistics::Int32(v), Some(LogicalType::Decimal { scale, .. })) => {
-                let val = get_stat!(v) as f64 / 10.0_f64.powi(*scale);
-                Ok(Self::Decimal(val))
+                Self::try_from_decimal(get_stat!(v) as i128, *scale)
             }
             (Statistics::Int32(v), _) => Ok(Self::Int32(get_stat!(v))),
             (
@@ -530,8 +529,7 @@ impl StatsScalar {
                 }
             }
             (Statistics::Int64(v), Some(LogicalType::Decimal { scale, .. })) => {
-                let val = get_stat!(v) as f64 / 10.0_f64.powi(*scale);
-                Ok(Self::Decimal(val))
+                Self::try_from_decimal(get_stat!(v) as i128, *scale)
             }
             (Statistics::Int64(v), _) => Ok(Self::Int64(get_stat!(v))),
             (Statistics::Float(v), _) => Ok(Self::Float32(get_stat!(v))),
@@ -566,23 +564,13 @@ impl StatsScalar {
                 }
                 .unwrap_or_default();
 
-                let val = if val.len() <= 16 {
-                    i128::from_be_bytes(sign_extend_be(val)) as f64
+                if val.len() <= 16 {
+                    Self::try_from_decimal(i128::from_be_bytes(sign_extend_be(val)), *scale)
                 } else {
-                    return Err(DeltaTableError::generic(format!(
+                    Err(DeltaTableError::generic(format!(
                         "Decimal too large: {val:?}, precision: {precision}"
-                    )));
-                };
-
-                let mut val = val / 10.0_f64.powi(*scale);
-
-                if val.is_normal()
-                    && (val.trunc() as i128).to_string().len() > (precision - scale) as usize
-                {
-                    val = f64::from_bits(val.to_bits() - 1);
+                    )))
                 }
-
-                Ok(Self::Decimal(val))
             }
             (Statistics::FixedLenByteArray(v), Some(LogicalType::Uuid)) => {
                 let val = if use_min {
@@ -612,6 +600,19 @@ impl StatsScalar {
     }
 }
 
+impl StatsScalar {
+    /// Decimals with more digits than a JSON number can hold exactly have no statistics,
+    /// since a rounded bound may exclude values of the column.
+    fn try_from_decimal(unscaled: i128, scale: i32) -> Result<Self, DeltaTableError> {
+        if unscaled.unsigned_abs() >= 10_u128.pow(f64::DIGITS) {
+            return Err(DeltaTableError::generic(format!(
+                "Decimal has too many digits for statistics: {unscaled}, scale: {scale}"
+            )));
+        }
+        Ok(Self::Decimal(unscaled as f64 / 10.0_f64.powi(scale)))
+    }
+}
+
 /// Performs big endian sign extension
 pub fn sign_extend_be<const N: usize>(b: &[u8]) -> [u8; N] {
     assert!(b.len() <= N, "Array too large, expected at most {N}");
@@ -671,6 +672,9 @@ struct AggregatedStats {
     pub min: Option<StatsScalar>,
     pub max: Option<StatsScalar>,
     pub null_count: u64,
+    /// Whether the bounds of some row group cannot be represented,
+    /// so that the column has no bounds.
+    pub unbounded: bool,
 }
 
 impl From<(&Statistics, Option<&LogicalType>)> for AggregatedStats {
@@ -680,16 +684,19 @@ impl From<(&Statistics, Option<&LogicalType>)> for AggregatedStats {
         if stats.min_bytes_opt().is_some() && stats.max_bytes_opt().is_some() {
             let min = StatsScalar::try_from_stats(stats, logical_type, true).ok();
             let max = StatsScalar::try_from_stats(stats, logical_type, false).ok();
+            let unbounded = min.is_none() || max.is_none();
             Self {
-                min,
-                max,
+                min: min.filter(|_| !unbounded),
+                max: max.filter(|_| !unbounded),
                 null_count,
+                unbounded,
             }
         } else {
             Self {
                 min: None,
                 max: None,
                 null_count,
+                unbounded: false,
             }
         }
     }
@@ -697,6 +704,13 @@ impl From<(&Statistics, Option<&LogicalType>)> for AggregatedStats {
 
 impl AddAssign for AggregatedStats {
     fn add_assign(&mut self, rhs: Self) {
+        self.null_count += rhs.null_count;
+        self.unbounded |= rhs.unbounded;
+        if self.unbounded {
+            self.min = None;
+            self.max = None;
+            return;
+        }
         self.min = match (self.min.take(), rhs.min) {
             (Some(lhs), Some(rhs)) => {
                 if lhs < rhs {
@@ -717,8 +731,6 @@ impl AddAssign for AggregatedStats {
             }
             (lhs, rhs) => lhs.or(rhs),
         };
-
-        self.null_count += rhs.null_count;
     }
 }
 
-- 
2.43.0


From 4cadbd0f6c8344640e56f599c650a8fd15a1b85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:26 +0000
Subject: [PATCH 05/33] fix: do not take Parquet statistics as bounds of
 floating-point columns with NaN

---
 crates/sail-data-source/src/formats/parquet/read.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/sail-data-source/src/formats/parquet/read.rs b/crates/sail-data-source/src/formats/parquet/read.rs
index 7bc936d..e3d0506 100644
--- a/crates/sail-data-source/src/formats/parquet/read.rs
+++ b/crates/sail-data-source/src/formats/parquet/read.rs
@@ -124,8 +124,19 @@ impl ReadFormat for ParquetReadFormat {
             .with_file_metadata_cache(Some(metadata_cache))
             .fetch_metadata()
             .await?;
-        let statistics =
+        let mut statistics =
             DFParquetMetadata::statistics_from_parquet_metadata(&metadata, &file_schema)?;
+        // NaN is greater than any other value but is not covered by the Parquet statistics.
+        for (field, column) in file_schema
+            .fields()
+            .iter()
+            .zip(statistics.column_statistics.iter_mut())
+        {
+            if field.data_type().is_floating() {
+                column.min_value = std::mem::take(&mut column.min_value).to_inexact();
+                column.max_value = std::mem::take(&mut column.max_value).to_inexact();
+            }
+        }
         let ordering = ordering_from_parquet_metadata(&metadata, &file_schema)?;
         Ok(ListingFileMeta {
             statistics,
-- 
2.43.0


From f14599e647cd093b4d39c5780098fcb2fa71a604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:33 +0000
Subject: [PATCH 06/33] fix: cast Delta partition values from strings when
 predicates select the files to rewrite

---
 .../planner/metadata_predicate.rs             | 25 +++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/crates/sail-delta-lake/src/physical_plan/planner/metadata_predicate.rs b/crates/sail-delta-lake/src/physical_plan/planner/metadata_predicate.rs
index f77d704..21d37b2 100644
--- a/crates/sail-delta-lake/src/physical_plan/planner/metadata_predicate.rs
+++ b/crates/sail-delta-lake/src/physical_plan/planner/metadata_predicate.rs
@@ -3,6 +3,7 @@ use std::sync::Arc;
 
 use datafusion::arrow::datatypes::{DataType as ArrowDataType, Schema as ArrowSchema, SchemaRef};
 use datafusion::catalog::Session;
+use datafusion::common::tree_node::{Transformed, TransformedResult, TreeNode, TreeNodeRecursion};
 use datafusion::common::{
     Column as LogicalColumn, DataFusionError, Result, ScalarValue, ToDFSchema,
 };
@@ -48,6 +49,7 @@ pub(crate) fn build_metadata_filter(
     let rewritten = rewrite_predicate_for_metadata(predicate, &partition_columns, &stats_paths);
     if !needs_stats {
         let df_schema = input.schema().to_dfschema()?;
+        let rewritten = adapt_to_metadata_types(rewritten, snapshot)?;
         let physical_expr = simplify_expr(session, &df_schema, rewritten)?;
         return Ok(Arc::new(FilterExec::try_new(physical_expr, input)?));
     }
@@ -59,10 +61,33 @@ pub(crate) fn build_metadata_filter(
         })?,
     ));
     let df_schema = input.schema().to_dfschema()?;
+    let rewritten = adapt_to_metadata_types(rewritten, snapshot)?;
     let physical_expr = simplify_expr(session, &df_schema, rewritten)?;
     Ok(Arc::new(FilterExec::try_new(physical_expr, input)?))
 }
 
+/// Adapts a rewritten predicate to what the metadata columns hold.
+///
+/// Partition values are strings in the metadata, so they are cast to the types of the partition
+/// columns.
+fn adapt_to_metadata_types(predicate: Expr, snapshot: &DeltaSnapshot) -> Result<Expr> {
+    let partition_columns = snapshot.metadata().partition_columns();
+    predicate
+        .transform_down(|expr| match &expr {
+            Expr::Column(column) if partition_columns.contains(&column.name) => {
+                let data_type = snapshot
+                    .schema()
+                    .field_with_name(&column.name)?
+                    .data_type()
+                    .clone();
+                let cast = Expr::Cast(Cast::new(Box::new(expr), data_type));
+                Ok(Transformed::new(cast, true, TreeNodeRecursion::Jump))
+            }
+            _ => Ok(Transformed::no(expr)),
+        })
+        .data()
+}
+
 pub(crate) fn build_metadata_stats_schema(
     snapshot: &DeltaSnapshot,
     predicate: &Expr,
-- 
2.43.0


From 39778bf308e6ed6fee453a3f7350cdd1c3cf9455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:38 +0000
Subject: [PATCH 07/33] fix: do not take Delta statistics as bounds of
 floating-point columns with NaN

---
 .../sail-delta-lake/src/datasource/pruning.rs | 16 ++++++++--
 crates/sail-delta-lake/src/datasource/scan.rs |  5 +++
 .../planner/metadata_predicate.rs             | 32 +++++++++++++++----
 crates/sail-delta-lake/src/snapshot/stats.rs  | 14 ++++++--
 4 files changed, 57 insertions(+), 10 deletions(-)

diff --git a/crates/sail-delta-lake/src/datasource/pruning.rs b/crates/sail-delta-lake/src/datasource/pruning.rs
index faabb3d..012cd4e 100644
--- a/crates/sail-delta-lake/src/datasource/pruning.rs
+++ b/crates/sail-delta-lake/src/datasource/pruning.rs
@@ -51,6 +51,18 @@ fn widen_timestamp_max_struct_array(array: &StructArray) -> StructArray {
     StructArray::new(array.fields().clone(), columns, array.nulls().cloned())
 }
 
+/// Returns the bounds that the maximum values in the statistics give.
+///
+/// NaN is greater than any other value but is not covered by the statistics of a floating-point
+/// column, so their maximum values are not bounds.
+pub(crate) fn known_max_stat(array: ArrayRef) -> Option<ArrayRef> {
+    if array.data_type().is_floating() {
+        None
+    } else {
+        Some(widen_timestamp_max_stat(array))
+    }
+}
+
 /// Delta timestamp JSON max statistics are truncated to milliseconds. Widen the upper bound
 /// by one millisecond (in the array's physical unit) so pruning remains conservative.
 pub(crate) fn widen_timestamp_max_stat(array: ArrayRef) -> ArrayRef {
@@ -550,7 +562,7 @@ impl<'adds> AddStatsPruningStatistics<'adds> {
         if let Some(array) =
             self.build_json_column_stat_array(column, |stats, name| stats.max_values.get(name))
         {
-            return Some(widen_timestamp_max_stat(array));
+            return known_max_stat(array);
         }
 
         let storage_name = self.storage_name_for(column)?;
@@ -568,7 +580,7 @@ impl<'adds> AddStatsPruningStatistics<'adds> {
             }
             Self::null_scalar(dt)
         })
-        .map(widen_timestamp_max_stat)
+        .and_then(known_max_stat)
     }
 
     fn compute_null_counts(&self, column: &Column) -> Option<ArrayRef> {
diff --git a/crates/sail-delta-lake/src/datasource/scan.rs b/crates/sail-delta-lake/src/datasource/scan.rs
index facfddf..c821b6a 100644
--- a/crates/sail-delta-lake/src/datasource/scan.rs
+++ b/crates/sail-delta-lake/src/datasource/scan.rs
@@ -682,6 +682,11 @@ fn stats_for_add(action: &Add, file_schema: &SchemaRef) -> Result<Option<Arc<Sta
             min_value = min_value.to_inexact();
             max_value = max_value.map(widen_timestamp_max_scalar).to_inexact();
         }
+        // NaN is greater than any other value but is not covered by the statistics.
+        if field.data_type().is_floating() {
+            min_value = min_value.to_inexact();
+            max_value = max_value.to_inexact();
+        }
 
         column_statistics.push(ColumnStatistics {
             null_count,
diff --git a/crates/sail-delta-lake/src/physical_plan/planner/metadata_predicate.rs b/crates/sail-delta-lake/src/physical_plan/planner/metadata_predicate.rs
index 21d37b2..52c29bb 100644
--- a/crates/sail-delta-lake/src/physical_plan/planner/metadata_predicate.rs
+++ b/crates/sail-delta-lake/src/physical_plan/planner/metadata_predicate.rs
@@ -5,12 +5,12 @@ use datafusion::arrow::datatypes::{DataType as ArrowDataType, Schema as ArrowSch
 use datafusion::catalog::Session;
 use datafusion::common::tree_node::{Transformed, TransformedResult, TreeNode, TreeNodeRecursion};
 use datafusion::common::{
-    Column as LogicalColumn, DataFusionError, Result, ScalarValue, ToDFSchema,
+    Column as LogicalColumn, DFSchema, DataFusionError, Result, ScalarValue, ToDFSchema,
 };
 use datafusion::functions::core::getfield::GetFieldFunc;
 use datafusion::logical_expr::expr::{Between, BinaryExpr, Cast, InList};
 use datafusion::logical_expr::utils::{conjunction, disjunction};
-use datafusion::logical_expr::{Expr, Operator};
+use datafusion::logical_expr::{Expr, ExprSchemable, Operator};
 use datafusion::physical_plan::ExecutionPlan;
 use datafusion::physical_plan::filter::FilterExec;
 
@@ -49,7 +49,7 @@ pub(crate) fn build_metadata_filter(
     let rewritten = rewrite_predicate_for_metadata(predicate, &partition_columns, &stats_paths);
     if !needs_stats {
         let df_schema = input.schema().to_dfschema()?;
-        let rewritten = adapt_to_metadata_types(rewritten, snapshot)?;
+        let rewritten = adapt_to_metadata_types(rewritten, &df_schema, snapshot)?;
         let physical_expr = simplify_expr(session, &df_schema, rewritten)?;
         return Ok(Arc::new(FilterExec::try_new(physical_expr, input)?));
     }
@@ -61,7 +61,7 @@ pub(crate) fn build_metadata_filter(
         })?,
     ));
     let df_schema = input.schema().to_dfschema()?;
-    let rewritten = adapt_to_metadata_types(rewritten, snapshot)?;
+    let rewritten = adapt_to_metadata_types(rewritten, &df_schema, snapshot)?;
     let physical_expr = simplify_expr(session, &df_schema, rewritten)?;
     Ok(Arc::new(FilterExec::try_new(physical_expr, input)?))
 }
@@ -69,8 +69,13 @@ pub(crate) fn build_metadata_filter(
 /// Adapts a rewritten predicate to what the metadata columns hold.
 ///
 /// Partition values are strings in the metadata, so they are cast to the types of the partition
-/// columns.
-fn adapt_to_metadata_types(predicate: Expr, snapshot: &DeltaSnapshot) -> Result<Expr> {
+/// columns. The maximum of a floating-point column in the file statistics does not cover NaN,
+/// which is greater than any other value, so it is not a bound.
+fn adapt_to_metadata_types(
+    predicate: Expr,
+    df_schema: &DFSchema,
+    snapshot: &DeltaSnapshot,
+) -> Result<Expr> {
     let partition_columns = snapshot.metadata().partition_columns();
     predicate
         .transform_down(|expr| match &expr {
@@ -83,11 +88,26 @@ fn adapt_to_metadata_types(predicate: Expr, snapshot: &DeltaSnapshot) -> Result<
                 let cast = Expr::Cast(Cast::new(Box::new(expr), data_type));
                 Ok(Transformed::new(cast, true, TreeNodeRecursion::Jump))
             }
+            Expr::ScalarFunction(_) if is_max_bound(&expr) => {
+                let data_type = expr.get_type(df_schema)?;
+                if data_type.is_floating() {
+                    let unknown = Expr::Literal(ScalarValue::try_from(&data_type)?, None);
+                    Ok(Transformed::new(unknown, true, TreeNodeRecursion::Jump))
+                } else {
+                    Ok(Transformed::new(expr, false, TreeNodeRecursion::Jump))
+                }
+            }
             _ => Ok(Transformed::no(expr)),
         })
         .data()
 }
 
+fn is_max_bound(expr: &Expr) -> bool {
+    extract_column_path(expr).is_some_and(|path| {
+        path.len() > 2 && path[0] == FIELD_NAME_STATS_PARSED && path[1] == STATS_FIELD_MAX_VALUES
+    })
+}
+
 pub(crate) fn build_metadata_stats_schema(
     snapshot: &DeltaSnapshot,
     predicate: &Expr,
diff --git a/crates/sail-delta-lake/src/snapshot/stats.rs b/crates/sail-delta-lake/src/snapshot/stats.rs
index fc3489b..20fd87b 100644
--- a/crates/sail-delta-lake/src/snapshot/stats.rs
+++ b/crates/sail-delta-lake/src/snapshot/stats.rs
@@ -35,7 +35,7 @@ use log::warn;
 
 use super::DeltaSnapshot;
 use crate::datasource::pruning::{
-    arrow_type_contains_timestamp, widen_timestamp_max_scalar, widen_timestamp_max_stat,
+    arrow_type_contains_timestamp, known_max_stat, widen_timestamp_max_scalar,
 };
 use crate::schema::arrow_field_physical_name;
 use crate::spec::fields::{
@@ -385,6 +385,16 @@ impl<'a> SnapshotPruningStats<'a> {
             min_value = min_value.to_inexact();
             max_value = max_value.map(widen_timestamp_max_scalar).to_inexact();
         }
+        // NaN is greater than any other value but is not covered by the statistics.
+        let is_floating = self
+            .snapshot
+            .schema()
+            .field_with_name(name)
+            .is_ok_and(|field| field.data_type().is_floating());
+        if !is_partition && is_floating {
+            min_value = min_value.to_inexact();
+            max_value = max_value.to_inexact();
+        }
 
         Ok(ColumnStatistics {
             null_count,
@@ -517,7 +527,7 @@ impl PruningStatistics for SnapshotPruningStats<'_> {
         {
             Some(values)
         } else {
-            Some(widen_timestamp_max_stat(values))
+            known_max_stat(values)
         }
     }
 
-- 
2.43.0


From baca3c808aa0b14f43df0cf299fe96c564fd66b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:56 +0000
Subject: [PATCH 08/33] fix: find the earlier checkpoint when a Delta version
 before the last checkpoint is read

---
 crates/sail-delta-lake/src/checkpoint/mod.rs          | 4 +++-
 crates/sail-delta-lake/src/delta_log/segment.rs       | 8 ++++++--
 crates/sail-delta-lake/src/delta_log/segment_files.rs | 4 +++-
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/sail-delta-lake/src/checkpoint/mod.rs b/crates/sail-delta-lake/src/checkpoint/mod.rs
index 533ed26..5c15095 100644
--- a/crates/sail-delta-lake/src/checkpoint/mod.rs
+++ b/crates/sail-delta-lake/src/checkpoint/mod.rs
@@ -542,7 +542,9 @@ impl<'a> CheckpointManager<'a> {
         let store = self.log_store.object_store(Some(self.operation_id));
         let offset_version = read_last_checkpoint_version_from_store(store.clone()).await;
         let offset_version = offset_version
-            .map(|v| v.min(version).saturating_sub(1))
+            // A checkpoint after the requested version does not tell where an earlier one is.
+            .filter(|v| *v <= version)
+            .map(|v| v.saturating_sub(1))
             .unwrap_or(0);
         let log_entries = list_delta_log_entries_from(store.clone(), offset_version).await?;
         let mut commit_entries: Vec<(i64, ObjectMeta)> = Vec::new();
diff --git a/crates/sail-delta-lake/src/delta_log/segment.rs b/crates/sail-delta-lake/src/delta_log/segment.rs
index 431100d..ad60dfa 100644
--- a/crates/sail-delta-lake/src/delta_log/segment.rs
+++ b/crates/sail-delta-lake/src/delta_log/segment.rs
@@ -135,7 +135,9 @@ impl<'a> LogSegmentResolver<'a> {
 
         let last_cp_hint_version = read_last_checkpoint_version_from_store(store.clone())
             .await
-            .map(|v| v.min(version).saturating_sub(1))
+            // A checkpoint after the requested version does not tell where an earlier one is.
+            .filter(|v| *v <= version)
+            .map(|v| v.saturating_sub(1))
             .unwrap_or(0);
         let list_offset = lower_bound.min(last_cp_hint_version);
 
@@ -286,7 +288,9 @@ impl<'a> LogSegmentResolver<'a> {
 
         let last_cp_hint_version = read_last_checkpoint_version_from_store(store.clone())
             .await
-            .map(|v| v.min(version).saturating_sub(1))
+            // A checkpoint after the requested version does not tell where an earlier one is.
+            .filter(|v| *v <= version)
+            .map(|v| v.saturating_sub(1))
             .unwrap_or(0);
 
         let (_, checkpoint, all_commits, all_compactions) =
diff --git a/crates/sail-delta-lake/src/delta_log/segment_files.rs b/crates/sail-delta-lake/src/delta_log/segment_files.rs
index a9f1610..65d3bb8 100644
--- a/crates/sail-delta-lake/src/delta_log/segment_files.rs
+++ b/crates/sail-delta-lake/src/delta_log/segment_files.rs
@@ -52,7 +52,9 @@ pub async fn list_log_segment_files(
     let store = log_store.object_store(None);
     let offset_version = read_last_checkpoint_version_from_store(store.clone())
         .await
-        .map(|v| v.min(max_version).saturating_sub(1))
+        // A checkpoint after the requested version does not tell where an earlier one is.
+        .filter(|v| *v <= max_version)
+        .map(|v| v.saturating_sub(1))
         .unwrap_or(0);
 
     let (_, checkpoint_meta, commit_metas, compaction_metas) =
-- 
2.43.0


From 8f1c7f4e8bdca24681a57267d8c405d3f7562d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:26 +0000
Subject: [PATCH 09/33] fix: do not check Delta constraints of the source rows
 that a MERGE does not insert

---
 .../src/check_constraints.rs                  | 23 ++++++++++++-------
 crates/sail-logical-plan/src/merge.rs         | 16 ++++++++++---
 2 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/crates/sail-logical-plan/src/check_constraints.rs b/crates/sail-logical-plan/src/check_constraints.rs
index 190bf5b..8951079 100644
--- a/crates/sail-logical-plan/src/check_constraints.rs
+++ b/crates/sail-logical-plan/src/check_constraints.rs
@@ -1,5 +1,5 @@
 use datafusion_common::Result;
-use datafusion_expr::{Expr, LogicalPlan, LogicalPlanBuilder, ScalarUDF, lit, when};
+use datafusion_expr::{Expr, LogicalPlan, LogicalPlanBuilder, ScalarUDF, lit, not, when};
 pub use sail_common_datafusion::datasource::{DeltaCheckConstraintExpr, DeltaConstraintViolation};
 use sail_function::scalar::misc::raise_error::RaiseError;
 
@@ -12,14 +12,17 @@ pub fn apply_delta_check_constraint_filter(
         return Ok(plan);
     }
 
-    let mut predicate = build_delta_check_constraint_expr(constraints)?;
-    if let Some(should_validate) = should_validate {
-        predicate = when(should_validate, predicate).otherwise(lit(true))?;
-    }
+    let predicate = build_delta_check_constraint_expr(constraints, should_validate)?;
     LogicalPlanBuilder::from(plan).filter(predicate)?.build()
 }
 
-fn build_delta_check_constraint_expr(constraints: &[DeltaCheckConstraintExpr]) -> Result<Expr> {
+/// The optimizer may turn the conditional expressions into conjunctions and disjunctions, so an
+/// error must not depend on an enclosing condition. Each condition therefore covers the rows that
+/// are not validated.
+fn build_delta_check_constraint_expr(
+    constraints: &[DeltaCheckConstraintExpr],
+    should_validate: Option<Expr>,
+) -> Result<Expr> {
     let mut predicate = lit(true);
     for constraint in constraints.iter().rev() {
         let message = match &constraint.violation {
@@ -36,8 +39,12 @@ fn build_delta_check_constraint_expr(constraints: &[DeltaCheckConstraintExpr]) -
             ),
         };
         let raise = ScalarUDF::from(RaiseError::new()).call(vec![lit(message)]);
-        predicate =
-            when(Expr::IsTrue(Box::new(constraint.expr.clone())), predicate).otherwise(raise)?;
+        let satisfied = Expr::IsTrue(Box::new(constraint.expr.clone()));
+        let satisfied = match &should_validate {
+            Some(should_validate) => not(should_validate.clone()).or(satisfied),
+            None => satisfied,
+        };
+        predicate = when(satisfied, predicate).otherwise(raise)?;
     }
     Ok(predicate)
 }
diff --git a/crates/sail-logical-plan/src/merge.rs b/crates/sail-logical-plan/src/merge.rs
index 622b354..ea9904b 100644
--- a/crates/sail-logical-plan/src/merge.rs
+++ b/crates/sail-logical-plan/src/merge.rs
@@ -1870,10 +1870,20 @@ fn build_merge_projection(
     // each writer's local plan shape.
     let insert_op = lit(RowLevelOperationType::Insert.as_i32());
     let copy_op = lit(RowLevelOperationType::Copy.as_i32());
-    let mut operation_branches = vec![(
+    let mut operation_branches = Vec::new();
+    let mut source_only_op = insert_op.clone();
+    if !options.check_constraint_exprs.is_empty() {
+        // The optimizer may evaluate the constraints before the rows that no clause inserts are
+        // removed, so these rows must not be tagged as inserts.
+        if let Some(inserted) = combine_disjunction(&not_matched_by_target_clause_predicates) {
+            operation_branches.push((Box::new(inserted), Box::new(insert_op)));
+        }
+        source_only_op = lit(RowLevelOperationType::Noop.as_i32());
+    }
+    operation_branches.push((
         Box::new(col(TARGET_PRESENT_COLUMN).is_null()),
-        Box::new(insert_op),
-    )];
+        Box::new(source_only_op),
+    ));
     operation_branches.extend(
         options
             .matched_clauses
-- 
2.43.0


From f95464fcbb74ff294c6f563146dd3f7417a81836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:31 +0000
Subject: [PATCH 10/33] fix: rewrite files in Delta deletes whose condition the
 deletion vector writer cannot evaluate

---
 .../src/physical_plan/planner/op_delete.rs         | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/sail-delta-lake/src/physical_plan/planner/op_delete.rs b/crates/sail-delta-lake/src/physical_plan/planner/op_delete.rs
index d10c7b9..47cef47 100644
--- a/crates/sail-delta-lake/src/physical_plan/planner/op_delete.rs
+++ b/crates/sail-delta-lake/src/physical_plan/planner/op_delete.rs
@@ -28,7 +28,7 @@ use crate::physical_plan::{
     DeltaCommitContext, DeltaDiscoveryExec, DeltaScanByAddsExec, DeltaWriterExecOptions,
     prepare_delta_write_context,
 };
-use crate::spec::DeltaOperation;
+use crate::spec::{ColumnMappingMode, DeltaOperation};
 
 pub async fn build_delete_plan(
     ctx: &PlannerContext<'_>,
@@ -216,6 +216,18 @@ pub async fn build_delete_plan_mor(
         return build_delete_plan(ctx, condition).await;
     }
 
+    // The deletion vector writer evaluates the condition on the columns that it finds in the data
+    // file under their logical names. It has neither partition values nor renamed columns.
+    let uses_partition_columns = condition_expr
+        .column_refs()
+        .iter()
+        .any(|column| partition_columns.contains(&column.name));
+    let has_column_mapping =
+        snapshot_state.effective_column_mapping_mode() != ColumnMappingMode::None;
+    if uses_partition_columns || has_column_mapping {
+        return build_delete_plan(ctx, condition).await;
+    }
+
     let log_replay_options = LogReplayOptions {
         include_stats_json: true,
         ..Default::default()
-- 
2.43.0


From 5efa7502286afa3b28c4792e02bfd49f506f7183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:32 +0000
Subject: [PATCH 11/33] fix: find the Delta files with encoded paths when
 writing their deletion vectors

---
 crates/sail-delta-lake/src/datasource/mod.rs     |  1 +
 crates/sail-delta-lake/src/datasource/scan.rs    |  2 +-
 .../src/physical_plan/dv_writer_exec.rs          | 16 +++++++---------
 3 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/crates/sail-delta-lake/src/datasource/mod.rs b/crates/sail-delta-lake/src/datasource/mod.rs
index acd80a2..2bb7290 100644
--- a/crates/sail-delta-lake/src/datasource/mod.rs
+++ b/crates/sail-delta-lake/src/datasource/mod.rs
@@ -50,6 +50,7 @@ pub use expressions::{
 };
 pub use pruning::{PruningResult, prune_files};
 pub use scan::build_file_scan_config;
+pub(crate) use scan::rewrite_data_file_location;
 pub use schema::df_logical_schema;
 
 pub(crate) fn create_object_store_url(location: &Url) -> DeltaResult<ObjectStoreUrl> {
diff --git a/crates/sail-delta-lake/src/datasource/scan.rs b/crates/sail-delta-lake/src/datasource/scan.rs
index c821b6a..b22fa3a 100644
--- a/crates/sail-delta-lake/src/datasource/scan.rs
+++ b/crates/sail-delta-lake/src/datasource/scan.rs
@@ -607,7 +607,7 @@ fn bounds_have_mismatched_types(a: &Precision<ScalarValue>, b: &Precision<Scalar
     }
 }
 
-fn rewrite_data_file_location(table_root: Path, location: Path) -> Path {
+pub(crate) fn rewrite_data_file_location(table_root: Path, location: Path) -> Path {
     let raw = location.as_ref();
     if looks_like_absolute_uri(raw) {
         return location;
diff --git a/crates/sail-delta-lake/src/physical_plan/dv_writer_exec.rs b/crates/sail-delta-lake/src/physical_plan/dv_writer_exec.rs
index 25dd7be..aba4b1c 100644
--- a/crates/sail-delta-lake/src/physical_plan/dv_writer_exec.rs
+++ b/crates/sail-delta-lake/src/physical_plan/dv_writer_exec.rs
@@ -883,8 +883,11 @@ async fn scan_file_for_matching_rows(
     use datafusion::datasource::listing::PartitionedFile;
     use datafusion::datasource::physical_plan::{FileGroup, FileScanConfigBuilder, ParquetSource};
     use datafusion::datasource::source::DataSourceExec;
+    use object_store::ObjectMeta;
     use object_store::path::Path;
 
+    use crate::datasource::rewrite_data_file_location;
+
     // Build a simple single-file scan directly from the parquet file.
     let object_store_url = datafusion::datasource::object_store::ObjectStoreUrl::parse(
         &table_url[..url::Position::BeforePath],
@@ -892,15 +895,10 @@ async fn scan_file_for_matching_rows(
 
     // The add.path is relative to the table root (e.g., "part-00001-...parquet").
     // We must prefix it with the table root path so the object store can find it.
-    let table_root = Path::from(table_url.path());
-    let file_location = Path::from(format!(
-        "{}{}{}",
-        table_root,
-        object_store::path::DELIMITER,
-        add.path
-    ));
-    let file_size = add.size as u64;
-    let partitioned_file = PartitionedFile::new(file_location.to_string(), file_size);
+    let mut object_meta = ObjectMeta::try_from(add)?;
+    object_meta.location =
+        rewrite_data_file_location(Path::from(table_url.path()), object_meta.location);
+    let partitioned_file = PartitionedFile::from(object_meta);
 
     let parquet_source = ParquetSource::new(Arc::clone(table_schema));
     let file_source: Arc<dyn datafusion::datasource::physical_plan::FileSource> =
-- 
2.43.0


From de00f7d07408da24e68dc7fc4a6dbf193fd6e0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:04 +0000
Subject: [PATCH 12/33] fix: agree on the column mapping metadata of the Delta
 scan schema in logical and physical plans

---
 .../sail-delta-lake/src/logical/table_source.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/crates/sail-delta-lake/src/logical/table_source.rs b/crates/sail-delta-lake/src/logical/table_source.rs
index 16c36c6..4685c1c 100644
--- a/crates/sail-delta-lake/src/logical/table_source.rs
+++ b/crates/sail-delta-lake/src/logical/table_source.rs
@@ -8,6 +8,8 @@ use sail_common_datafusion::datasource::MergeCapableSource;
 use crate::DeltaResult;
 use crate::datasource::{DeltaScanConfig, df_logical_schema, get_pushdown_filters};
 use crate::delta_log::LogStoreRef;
+use crate::schema::attach_column_mapping_metadata;
+use crate::spec::ColumnMappingMode;
 use crate::table::DeltaSnapshot;
 
 /// Logical-only Delta table source used in DataFusion logical plans.
@@ -47,13 +49,26 @@ impl DeltaTableSource {
         config: DeltaScanConfig,
     ) -> DeltaResult<Self> {
         snapshot.ensure_data_read_supported()?;
+        // The scan attaches the column mapping metadata to the requested schema,
+        // and the logical schema must agree with it.
+        let requested = match config.schema.as_ref() {
+            Some(requested)
+                if snapshot.effective_column_mapping_mode() != ColumnMappingMode::None =>
+            {
+                Some(Arc::new(attach_column_mapping_metadata(
+                    requested.as_ref(),
+                    snapshot.schema(),
+                )))
+            }
+            requested => requested.cloned(),
+        };
         let schema = df_logical_schema(
             snapshot.as_ref(),
             &config.file_column_name,
             &config.row_index_column_name,
             &config.commit_version_column_name,
             &config.commit_timestamp_column_name,
-            config.schema.clone(),
+            requested,
         )?;
         Ok(Self {
             snapshot,
-- 
2.43.0


From 482fc89d01ad3cef3b4f3d8be84dcb892b41130f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:54 +0000
Subject: [PATCH 13/33] fix: name the partition columns of a Delta scan
 logically so that filters over column-mapped tables find them

---
 crates/sail-delta-lake/src/datasource/scan.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/sail-delta-lake/src/datasource/scan.rs b/crates/sail-delta-lake/src/datasource/scan.rs
index b22fa3a..1dff095 100644
--- a/crates/sail-delta-lake/src/datasource/scan.rs
+++ b/crates/sail-delta-lake/src/datasource/scan.rs
@@ -291,7 +291,7 @@ pub fn build_file_scan_config(
             field
                 .as_ref()
                 .clone()
-                .with_name(&column.physical_name)
+                .with_name(&column.logical_name)
                 .with_data_type(corrected),
         ));
     }
-- 
2.43.0


From 6fa42eff1c4a76fe365d583badd992872d3a5a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:41 +0000
Subject: [PATCH 14/33] fix: evaluate Delta predicates over partition columns
 in full when they select whole files

---
 .../src/physical_plan/planner/metadata_predicate.rs       | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/sail-delta-lake/src/physical_plan/planner/metadata_predicate.rs b/crates/sail-delta-lake/src/physical_plan/planner/metadata_predicate.rs
index 52c29bb..f5451ba 100644
--- a/crates/sail-delta-lake/src/physical_plan/planner/metadata_predicate.rs
+++ b/crates/sail-delta-lake/src/physical_plan/planner/metadata_predicate.rs
@@ -46,13 +46,15 @@ pub(crate) fn build_metadata_filter(
     let stats_schema = needs_stats
         .then(|| build_metadata_stats_schema(snapshot, &predicate))
         .transpose()?;
-    let rewritten = rewrite_predicate_for_metadata(predicate, &partition_columns, &stats_paths);
     if !needs_stats {
+        // The files that remain are taken to match in full, so the predicate itself must be
+        // evaluated, rather than a weaker one.
         let df_schema = input.schema().to_dfschema()?;
-        let rewritten = adapt_to_metadata_types(rewritten, &df_schema, snapshot)?;
-        let physical_expr = simplify_expr(session, &df_schema, rewritten)?;
+        let predicate = adapt_to_metadata_types(predicate, &df_schema, snapshot)?;
+        let physical_expr = simplify_expr(session, &df_schema, predicate)?;
         return Ok(Arc::new(FilterExec::try_new(physical_expr, input)?));
     }
+    let rewritten = rewrite_predicate_for_metadata(predicate, &partition_columns, &stats_paths);
 
     let input: Arc<dyn ExecutionPlan> = Arc::new(DeltaMetadataStatsExec::new(
         input,
-- 
2.43.0


From 83a3b53b8ba53b5e73ab08d6bc78fd687c8052ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:02 +0000
Subject: [PATCH 15/33] fix: take no commit timestamps from Delta log
 compaction files

---
 crates/sail-delta-lake/src/checkpoint/mod.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/crates/sail-delta-lake/src/checkpoint/mod.rs b/crates/sail-delta-lake/src/checkpoint/mod.rs
index 5c15095..7afb8a5 100644
--- a/crates/sail-delta-lake/src/checkpoint/mod.rs
+++ b/crates/sail-delta-lake/src/checkpoint/mod.rs
@@ -1197,7 +1197,7 @@ async fn replay_commit_actions_with_compactions_for_state<S: ReplayActionState>(
                 }
                 commit_timestamps.insert(*version, commit_timestamp);
             }
-            ReplayEntry::Compaction(start, end, meta) => {
+            ReplayEntry::Compaction(_, end, meta) => {
                 let bytes = root_store.get(&meta.location).await?.bytes().await?;
                 // Compacted JSON files use the same ndjson format as regular commits.
                 // Use end_version for the "version" parameter in error messages.
@@ -1205,11 +1205,8 @@ async fn replay_commit_actions_with_compactions_for_state<S: ReplayActionState>(
                 for action in actions {
                     state.apply_replay_action(action);
                 }
-                // Use the compaction file's modification time as timestamp for the end version.
-                let timestamp = meta.last_modified.timestamp_millis();
-                for v in *start..=*end {
-                    commit_timestamps.insert(v, timestamp);
-                }
+                // The compaction file does not tell when its versions were committed, so their
+                // timestamps are left to be resolved from the commits.
             }
         }
     }
-- 
2.43.0


From 640cbb52e4277eb983fe0f3fdd8e8fabb921747b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:07 +0000
Subject: [PATCH 16/33] fix: ignore bounds that Delta statistics do not have in
 metadata predicates

---
 .../planner/metadata_predicate.rs             | 29 +++++++++++++------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/crates/sail-delta-lake/src/physical_plan/planner/metadata_predicate.rs b/crates/sail-delta-lake/src/physical_plan/planner/metadata_predicate.rs
index f5451ba..abfb30b 100644
--- a/crates/sail-delta-lake/src/physical_plan/planner/metadata_predicate.rs
+++ b/crates/sail-delta-lake/src/physical_plan/planner/metadata_predicate.rs
@@ -72,7 +72,8 @@ pub(crate) fn build_metadata_filter(
 ///
 /// Partition values are strings in the metadata, so they are cast to the types of the partition
 /// columns. The maximum of a floating-point column in the file statistics does not cover NaN,
-/// which is greater than any other value, so it is not a bound.
+/// which is greater than any other value, so it is not a bound. Columns of some types, such as
+/// booleans, have no bounds at all.
 fn adapt_to_metadata_types(
     predicate: Expr,
     df_schema: &DFSchema,
@@ -90,20 +91,30 @@ fn adapt_to_metadata_types(
                 let cast = Expr::Cast(Cast::new(Box::new(expr), data_type));
                 Ok(Transformed::new(cast, true, TreeNodeRecursion::Jump))
             }
-            Expr::ScalarFunction(_) if is_max_bound(&expr) => {
-                let data_type = expr.get_type(df_schema)?;
-                if data_type.is_floating() {
-                    let unknown = Expr::Literal(ScalarValue::try_from(&data_type)?, None);
-                    Ok(Transformed::new(unknown, true, TreeNodeRecursion::Jump))
-                } else {
-                    Ok(Transformed::new(expr, false, TreeNodeRecursion::Jump))
-                }
+            Expr::ScalarFunction(_) if is_bound(&expr) => {
+                let unknown = match expr.get_type(df_schema) {
+                    Ok(data_type) if data_type.is_floating() && is_max_bound(&expr) => {
+                        ScalarValue::try_from(&data_type)?
+                    }
+                    Ok(_) => return Ok(Transformed::new(expr, false, TreeNodeRecursion::Jump)),
+                    Err(_) => ScalarValue::Null,
+                };
+                let unknown = Expr::Literal(unknown, None);
+                Ok(Transformed::new(unknown, true, TreeNodeRecursion::Jump))
             }
             _ => Ok(Transformed::no(expr)),
         })
         .data()
 }
 
+fn is_bound(expr: &Expr) -> bool {
+    extract_column_path(expr).is_some_and(|path| {
+        path.len() > 2
+            && path[0] == FIELD_NAME_STATS_PARSED
+            && (path[1] == STATS_FIELD_MIN_VALUES || path[1] == STATS_FIELD_MAX_VALUES)
+    })
+}
+
 fn is_max_bound(expr: &Expr) -> bool {
     extract_column_path(expr).is_some_and(|path| {
         path.len() > 2 && path[0] == FIELD_NAME_STATS_PARSED && path[1] == STATS_FIELD_MAX_VALUES
-- 
2.43.0


From 7cc81bed30326968b31d48f761b06f29db0eb67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:38 +0000
Subject: [PATCH 17/33] fix: select the files of a Delta scan exactly by
 predicates over partition columns

---
 .../sail-delta-lake/src/datasource/pruning.rs | 59 ++++++++++++++++++-
 .../src/physical/scan_planner.rs              | 28 +++++++--
 .../planner/metadata_predicate.rs             | 16 ++++-
 3 files changed, 92 insertions(+), 11 deletions(-)

diff --git a/crates/sail-delta-lake/src/datasource/pruning.rs b/crates/sail-delta-lake/src/datasource/pruning.rs
index 012cd4e..2b84f40 100644
--- a/crates/sail-delta-lake/src/datasource/pruning.rs
+++ b/crates/sail-delta-lake/src/datasource/pruning.rs
@@ -21,20 +21,22 @@
 use std::sync::Arc;
 
 use datafusion::arrow::array::{
-    Array, ArrayRef, StructArray, TimestampMicrosecondArray, TimestampMillisecondArray,
-    TimestampNanosecondArray, TimestampSecondArray, UInt64Array,
+    Array, ArrayRef, RecordBatch, RecordBatchOptions, StructArray, TimestampMicrosecondArray,
+    TimestampMillisecondArray, TimestampNanosecondArray, TimestampSecondArray, UInt64Array,
 };
-use datafusion::arrow::datatypes::{DataType, SchemaRef, TimeUnit};
+use datafusion::arrow::datatypes::{DataType, Schema, SchemaRef, TimeUnit};
 use datafusion::catalog::Session;
 use datafusion::common::{Result, ToDFSchema};
 use datafusion::logical_expr::Expr;
 use datafusion::logical_expr::utils::conjunction;
 use datafusion::physical_optimizer::pruning::PruningPredicate;
+use datafusion_common::cast::as_boolean_array;
 use datafusion_common::pruning::PruningStatistics;
 use datafusion_common::scalar::ScalarValue;
 use datafusion_common::{Column, DataFusionError};
 
 use crate::conversion::{ScalarConverter, parse_optional_partition_value};
+use crate::datasource::simplify_expr;
 use crate::delta_log::LogStoreRef;
 use crate::schema::arrow_field_physical_name;
 use crate::spec::statistics::Stats;
@@ -249,6 +251,56 @@ pub(crate) fn prune_adds_by_physical_predicate(
     pruning_predicate.prune(&stats)
 }
 
+/// Evaluates a predicate over partition columns, which holds for all rows of a file or for none,
+/// and returns the files for which it is true.
+///
+/// Unlike pruning, this keeps no file for which the predicate is null or hard to bound.
+pub(crate) fn select_adds_by_partition_predicate(
+    session: &dyn Session,
+    adds: &[Add],
+    table_schema: SchemaRef,
+    predicate: Expr,
+    column_mapping_mode: ColumnMappingMode,
+) -> Result<Vec<bool>> {
+    let mut fields = Vec::new();
+    let mut columns = Vec::new();
+    for field in table_schema.fields() {
+        if !predicate
+            .column_refs()
+            .iter()
+            .any(|column| &column.name == field.name())
+        {
+            continue;
+        }
+        let storage_name = arrow_field_physical_name(field, column_mapping_mode);
+        let values = adds
+            .iter()
+            .map(|add| {
+                let value = add.partition_values.get(storage_name);
+                parse_optional_partition_value(
+                    value.and_then(|value| value.as_deref()),
+                    field.data_type(),
+                )
+                .map_err(|e| DataFusionError::External(Box::new(e)))
+            })
+            .collect::<Result<Vec<_>>>()?;
+        if values.is_empty() {
+            return Ok(vec![]);
+        }
+        columns.push(ScalarValue::iter_to_array(values)?);
+        fields.push(field.as_ref().clone().with_nullable(true));
+    }
+    let schema = Arc::new(Schema::new(fields));
+    let predicate = simplify_expr(session, &schema.clone().to_dfschema()?, predicate)?;
+    let options = RecordBatchOptions::new().with_row_count(Some(adds.len()));
+    let batch = RecordBatch::try_new_with_options(schema, columns, &options)?;
+    let selected = predicate.evaluate(&batch)?.into_array(adds.len())?;
+    Ok(as_boolean_array(&selected)?
+        .iter()
+        .map(|selected| selected == Some(true))
+        .collect())
+}
+
 #[derive(Debug)]
 struct MaterializedColumnStats {
     min_values: Option<ArrayRef>,
@@ -660,6 +712,7 @@ mod tests {
     use datafusion::logical_expr::Operator;
     use datafusion::physical_expr::PhysicalExpr;
     use datafusion::physical_expr::expressions::{BinaryExpr, Column as PhysicalColumn, Literal};
+    use datafusion_common::cast::as_boolean_array;
     use datafusion_common::pruning::PruningStatistics;
     use datafusion_common::{Column, DataFusionError, Result, ScalarValue};
 
diff --git a/crates/sail-delta-lake/src/physical/scan_planner.rs b/crates/sail-delta-lake/src/physical/scan_planner.rs
index d378d67..13ee3c9 100644
--- a/crates/sail-delta-lake/src/physical/scan_planner.rs
+++ b/crates/sail-delta-lake/src/physical/scan_planner.rs
@@ -144,11 +144,13 @@ pub(crate) async fn plan_delta_scan(
         crate::datasource::get_pushdown_filters(&predicates, partition_cols.as_slice());
 
     let mut pruning_filters = Vec::new();
+    let mut partition_filters = Vec::new();
     let mut parquet_pushdown_filters = Vec::new();
     for (filter, pushdown) in filters.iter().zip(pushdown_filters) {
         match pushdown {
             datafusion::logical_expr::TableProviderFilterPushDown::Exact => {
                 pruning_filters.push(filter.clone());
+                partition_filters.push(filter.clone());
             }
             datafusion::logical_expr::TableProviderFilterPushDown::Inexact => {
                 pruning_filters.push(filter.clone());
@@ -177,12 +179,26 @@ pub(crate) async fn plan_delta_scan(
     let (file_source, pruning_mask) = match file_source {
         DeltaFileSource::Eager(files) => {
             if let Some(predicate) = pruning_predicate.as_ref() {
-                let pruning_mask = crate::datasource::pruning::prune_adds_by_physical_predicate(
-                    files.as_ref(),
-                    Arc::clone(&logical_schema),
-                    Arc::clone(predicate),
-                    kmode,
-                )?;
+                let mut pruning_mask =
+                    crate::datasource::pruning::prune_adds_by_physical_predicate(
+                        files.as_ref(),
+                        Arc::clone(&logical_schema),
+                        Arc::clone(predicate),
+                        kmode,
+                    )?;
+                // The filters over partition columns are not evaluated again for the rows.
+                if let Some(expr) = conjunction(partition_filters) {
+                    let selected = crate::datasource::pruning::select_adds_by_partition_predicate(
+                        session,
+                        files.as_ref(),
+                        Arc::clone(&logical_schema),
+                        expr,
+                        kmode,
+                    )?;
+                    for (keep, selected) in pruning_mask.iter_mut().zip(selected) {
+                        *keep &= selected;
+                    }
+                }
                 let pruned_files = files
                     .iter()
                     .zip(pruning_mask.iter().copied())
diff --git a/crates/sail-delta-lake/src/physical_plan/planner/metadata_predicate.rs b/crates/sail-delta-lake/src/physical_plan/planner/metadata_predicate.rs
index abfb30b..6c23f8b 100644
--- a/crates/sail-delta-lake/src/physical_plan/planner/metadata_predicate.rs
+++ b/crates/sail-delta-lake/src/physical_plan/planner/metadata_predicate.rs
@@ -9,7 +9,7 @@ use datafusion::common::{
 };
 use datafusion::functions::core::getfield::GetFieldFunc;
 use datafusion::logical_expr::expr::{Between, BinaryExpr, Cast, InList};
-use datafusion::logical_expr::utils::{conjunction, disjunction};
+use datafusion::logical_expr::utils::{conjunction, disjunction, split_conjunction_owned};
 use datafusion::logical_expr::{Expr, ExprSchemable, Operator};
 use datafusion::physical_plan::ExecutionPlan;
 use datafusion::physical_plan::filter::FilterExec;
@@ -54,7 +54,19 @@ pub(crate) fn build_metadata_filter(
         let physical_expr = simplify_expr(session, &df_schema, predicate)?;
         return Ok(Arc::new(FilterExec::try_new(physical_expr, input)?));
     }
-    let rewritten = rewrite_predicate_for_metadata(predicate, &partition_columns, &stats_paths);
+    // The same holds for the part of the predicate that is over partition columns only.
+    let (partition_predicates, other_predicates): (Vec<_>, Vec<_>) =
+        split_conjunction_owned(predicate)
+            .into_iter()
+            .partition(|expr| {
+                !predicate_requires_stats(expr, &partition_columns) && !expr.is_volatile()
+            });
+    let rewritten = partition_predicates
+        .into_iter()
+        .chain(conjunction(other_predicates).map(|predicate| {
+            rewrite_predicate_for_metadata(predicate, &partition_columns, &stats_paths)
+        }));
+    let rewritten = conjunction(rewritten).unwrap_or_else(literal_true);
 
     let input: Arc<dyn ExecutionPlan> = Arc::new(DeltaMetadataStatsExec::new(
         input,
-- 
2.43.0


From 3c96d5925774d7e2d442ff886118ae0e34674168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:54 +0000
Subject: [PATCH 18/33] fix: replay Delta log compaction files between the
 checkpoint and the first remaining commit

---
 .../sail-delta-lake/src/delta_log/replay.rs   | 23 ++++++++++++-------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/crates/sail-delta-lake/src/delta_log/replay.rs b/crates/sail-delta-lake/src/delta_log/replay.rs
index 9de6bbe..bebc6c7 100644
--- a/crates/sail-delta-lake/src/delta_log/replay.rs
+++ b/crates/sail-delta-lake/src/delta_log/replay.rs
@@ -23,6 +23,19 @@ use crate::spec::{
     CheckpointActionRow, DeltaError as DeltaTableError, DeltaResult, is_json_checkpoint_filename,
 };
 
+/// Returns the first version that the commit files or the compaction files cover.
+fn first_replay_version(
+    commit_files: &[(i64, ObjectMeta)],
+    compaction_files: &[((i64, i64), ObjectMeta)],
+) -> Option<i64> {
+    commit_files
+        .first()
+        .map(|(version, _)| *version)
+        .into_iter()
+        .chain(compaction_files.first().map(|((start, _), _)| *start))
+        .min()
+}
+
 async fn read_checkpoint_header_from_checkpoint_file(
     root_store: Arc<dyn ObjectStore>,
     meta: ObjectMeta,
@@ -108,10 +121,7 @@ pub(crate) async fn load_replayed_table_state(
         for row in rows {
             state.apply_checkpoint_row(row)?;
         }
-        commit_files
-            .first()
-            .map(|(v, _)| *v)
-            .or_else(|| compaction_files.first().map(|((s, _), _)| *s))
+        first_replay_version(&commit_files, &compaction_files)
             .unwrap_or(target_version.saturating_add(1))
     } else {
         0
@@ -195,10 +205,7 @@ pub(crate) async fn load_replayed_table_header(
                 Some(cp_meta) => {
                     let cp_state =
                         read_checkpoint_header_from_checkpoint_file(store.clone(), cp_meta).await?;
-                    let next_v = commit_files
-                        .first()
-                        .map(|(v, _)| *v)
-                        .or_else(|| compaction_files.first().map(|((s, _), _)| *s))
+                    let next_v = first_replay_version(&commit_files, &compaction_files)
                         .unwrap_or(target_version.saturating_add(1));
                     (cp_state, next_v, BTreeMap::new())
                 }
-- 
2.43.0


From 7bc632ca3d0715b05fca025219b1bb74175cd6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:54 +0000
Subject: [PATCH 19/33] fix: apply Delta scan filters that simplify to
 constants

---
 crates/sail-delta-lake/src/physical/scan_planner.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/sail-delta-lake/src/physical/scan_planner.rs b/crates/sail-delta-lake/src/physical/scan_planner.rs
index 13ee3c9..d7e349f 100644
--- a/crates/sail-delta-lake/src/physical/scan_planner.rs
+++ b/crates/sail-delta-lake/src/physical/scan_planner.rs
@@ -155,6 +155,10 @@ pub(crate) async fn plan_delta_scan(
             datafusion::logical_expr::TableProviderFilterPushDown::Inexact => {
                 pruning_filters.push(filter.clone());
                 parquet_pushdown_filters.push(filter.clone());
+                // The optimizer may have simplified a filter over partition columns to a constant.
+                if filter.column_refs().is_empty() {
+                    partition_filters.push(filter.clone());
+                }
             }
             datafusion::logical_expr::TableProviderFilterPushDown::Unsupported => {}
         }
-- 
2.43.0


From 80a964aea766e37ac96e3ee9483c42bbd80193b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:19 +0000
Subject: [PATCH 20/33] fix: keep the multiplicities of INTERSECT ALL

---
 crates/sail-plan/src/resolver/query/set_op.rs | 207 +++++++++---------
 1 file changed, 108 insertions(+), 99 deletions(-)

diff --git a/crates/sail-plan/src/resolver/query/set_op.rs b/crates/sail-plan/src/resolver/query/set_op.rs
index 1c0f232..6b5101a 100644
--- a/crates/sail-plan/src/resolver/query/set_op.rs
+++ b/crates/sail-plan/src/resolver/query/set_op.rs
@@ -31,7 +31,10 @@ impl PlanResolver<'_> {
         let left = self.resolve_query_plan(*left, state).await?;
         let right = self.resolve_query_plan(*right, state).await?;
         match set_op_type {
-            SetOpType::Intersect => Ok(LogicalPlanBuilder::intersect(left, right, is_all)?),
+            SetOpType::Intersect if is_all => {
+                Self::resolve_query_set_operation_all(left, right, JoinType::LeftSemi, state)
+            }
+            SetOpType::Intersect => Ok(LogicalPlanBuilder::intersect(left, right, false)?),
             SetOpType::Union => {
                 let (left, right) = if by_name {
                     let left_names = Self::get_field_names(left.schema(), state)?;
@@ -112,108 +115,114 @@ impl PlanResolver<'_> {
                         .build()?)
                 }
             }
+            SetOpType::Except if is_all => {
+                Self::resolve_query_set_operation_all(left, right, JoinType::LeftAnti, state)
+            }
             SetOpType::Except => {
-                let left_len = left.schema().fields().len();
-                let right_len = right.schema().fields().len();
+                let join_keys = Self::resolve_set_operation_join_keys(&left, &right, "EXCEPT")?;
+                Ok(LogicalPlanBuilder::from(left)
+                    .distinct()?
+                    .join_detailed(
+                        right,
+                        JoinType::LeftAnti,
+                        join_keys.into_iter().unzip(),
+                        None,
+                        NullEquality::NullEqualsNull,
+                    )?
+                    .build()?)
+            }
+        }
+    }
 
-                if left_len != right_len {
-                    return Err(PlanError::invalid(format!(
-                        "`EXCEPT ALL` must have the same number of columns. Left has {left_len} columns, right has {right_len} columns."
-                    )));
-                }
+    fn resolve_set_operation_join_keys(
+        left: &LogicalPlan,
+        right: &LogicalPlan,
+        name: &str,
+    ) -> PlanResult<Vec<(Column, Column)>> {
+        let left_len = left.schema().fields().len();
+        let right_len = right.schema().fields().len();
 
-                let mut join_keys = left
-                    .schema()
-                    .fields()
-                    .iter()
-                    .zip(right.schema().fields().iter())
-                    .map(|(left_field, right_field)| {
-                        (
-                            Column::from_name(left_field.name()),
-                            Column::from_name(right_field.name()),
-                        )
-                    })
-                    .collect::<Vec<_>>();
+        if left_len != right_len {
+            return Err(PlanError::invalid(format!(
+                "`{name}` must have the same number of columns. Left has {left_len} columns, right has {right_len} columns."
+            )));
+        }
+
+        Ok(left
+            .schema()
+            .fields()
+            .iter()
+            .zip(right.schema().fields().iter())
+            .map(|(left_field, right_field)| {
+                (
+                    Column::from_name(left_field.name()),
+                    Column::from_name(right_field.name()),
+                )
+            })
+            .collect())
+    }
 
-                let plan = if is_all {
-                    let left_row_number_alias = state.register_field_name("row_num");
-                    let right_row_number_alias = state.register_field_name("row_num");
-                    let left_row_number_window =
-                        Expr::WindowFunction(Box::new(expr::WindowFunction {
-                            fun: WindowFunctionDefinition::WindowUDF(row_number_udwf()),
-                            params: WindowFunctionParams {
-                                args: vec![],
-                                partition_by: left
-                                    .schema()
-                                    .fields()
-                                    .iter()
-                                    .map(|field| Expr::Column(Column::from_name(field.name())))
-                                    .collect::<Vec<_>>(),
-                                order_by: vec![],
-                                window_frame: WindowFrame::new(None),
-                                filter: None,
-                                null_treatment: Some(NullTreatment::RespectNulls),
-                                distinct: false,
-                            },
-                        }))
-                        .alias(left_row_number_alias.as_str());
-                    let right_row_number_window =
-                        Expr::WindowFunction(Box::new(expr::WindowFunction {
-                            fun: WindowFunctionDefinition::WindowUDF(row_number_udwf()),
-                            params: WindowFunctionParams {
-                                args: vec![],
-                                partition_by: right
-                                    .schema()
-                                    .fields()
-                                    .iter()
-                                    .map(|field| Expr::Column(Column::from_name(field.name())))
-                                    .collect::<Vec<_>>(),
-                                order_by: vec![],
-                                window_frame: WindowFrame::new(None),
-                                filter: None,
-                                null_treatment: Some(NullTreatment::RespectNulls),
-                                distinct: false,
-                            },
-                        }))
-                        .alias(right_row_number_alias.as_str());
-                    let left = LogicalPlanBuilder::from(left)
-                        .window(vec![left_row_number_window])?
-                        .build()?;
-                    let right = LogicalPlanBuilder::from(right)
-                        .window(vec![right_row_number_window])?
-                        .build()?;
-                    let left_join_columns = join_keys
+    /// Resolves `INTERSECT ALL` (left semi join) or `EXCEPT ALL` (left anti join).
+    /// The n-th of equal rows on the left is matched with the n-th of such rows on the right.
+    fn resolve_query_set_operation_all(
+        left: LogicalPlan,
+        right: LogicalPlan,
+        join_type: JoinType,
+        state: &mut PlanResolverState,
+    ) -> PlanResult<LogicalPlan> {
+        let name = if join_type == JoinType::LeftSemi {
+            "INTERSECT ALL"
+        } else {
+            "EXCEPT ALL"
+        };
+        let mut join_keys = Self::resolve_set_operation_join_keys(&left, &right, name)?;
+        let left_row_number_alias = state.register_field_name("row_num");
+        let right_row_number_alias = state.register_field_name("row_num");
+        let row_number_window = |plan: &LogicalPlan, alias: &str| {
+            Expr::WindowFunction(Box::new(expr::WindowFunction {
+                fun: WindowFunctionDefinition::WindowUDF(row_number_udwf()),
+                params: WindowFunctionParams {
+                    args: vec![],
+                    partition_by: plan
+                        .schema()
+                        .fields()
                         .iter()
-                        .map(|(left_col, _)| left_col.clone())
-                        .collect::<Vec<_>>();
-                    join_keys.push((
-                        Column::from_name(left_row_number_alias),
-                        Column::from_name(right_row_number_alias),
-                    ));
-                    LogicalPlanBuilder::from(left)
-                        .join_detailed(
-                            right,
-                            JoinType::LeftAnti,
-                            join_keys.into_iter().unzip(),
-                            None,
-                            NullEquality::NullEqualsNull,
-                        )?
-                        .project(left_join_columns)?
-                        .build()
-                } else {
-                    LogicalPlanBuilder::from(left)
-                        .distinct()?
-                        .join_detailed(
-                            right,
-                            JoinType::LeftAnti,
-                            join_keys.into_iter().unzip(),
-                            None,
-                            NullEquality::NullEqualsNull,
-                        )?
-                        .build()
-                }?;
-                Ok(plan)
-            }
-        }
+                        .map(|field| Expr::Column(Column::from_name(field.name())))
+                        .collect::<Vec<_>>(),
+                    order_by: vec![],
+                    window_frame: WindowFrame::new(None),
+                    filter: None,
+                    null_treatment: Some(NullTreatment::RespectNulls),
+                    distinct: false,
+                },
+            }))
+            .alias(alias)
+        };
+        let left_row_number_window = row_number_window(&left, left_row_number_alias.as_str());
+        let right_row_number_window = row_number_window(&right, right_row_number_alias.as_str());
+        let left = LogicalPlanBuilder::from(left)
+            .window(vec![left_row_number_window])?
+            .build()?;
+        let right = LogicalPlanBuilder::from(right)
+            .window(vec![right_row_number_window])?
+            .build()?;
+        let left_join_columns = join_keys
+            .iter()
+            .map(|(left_col, _)| left_col.clone())
+            .collect::<Vec<_>>();
+        join_keys.push((
+            Column::from_name(left_row_number_alias),
+            Column::from_name(right_row_number_alias),
+        ));
+        Ok(LogicalPlanBuilder::from(left)
+            .join_detailed(
+                right,
+                join_type,
+                join_keys.into_iter().unzip(),
+                None,
+                NullEquality::NullEqualsNull,
+            )?
+            .project(left_join_columns)?
+            .build()?)
     }
 }
-- 
2.43.0


From 5142dd9fad525e8bb474d5670e95002e47b1ca2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:28 +0000
Subject: [PATCH 21/33] fix: apply WHERE after LATERAL VIEW

---
 crates/sail-sql-analyzer/src/query.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/sail-sql-analyzer/src/query.rs b/crates/sail-sql-analyzer/src/query.rs
index f65e0d6..35e5e69 100644
--- a/crates/sail-sql-analyzer/src/query.rs
+++ b/crates/sail-sql-analyzer/src/query.rs
@@ -261,14 +261,13 @@ fn from_ast_query_select(select: QuerySelect) -> SqlResult<spec::QueryPlan> {
              condition,
          }| condition,
     );
+    let plan = query_plan_with_lateral_views(plan, lateral_views)?;
     let plan = if let Some(condition) = condition {
         query_plan_with_filter(plan, condition)?
     } else {
         plan
     };
 
-    let plan = query_plan_with_lateral_views(plan, lateral_views)?;
-
     let projection = projection
         .into_items()
         .map(from_ast_named_expression)
-- 
2.43.0


From 07386e52453034e3dfa43aff46093f1737b056e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:44 +0000
Subject: [PATCH 22/33] fix: tell apart aggregate and window expressions that
 differ in casts only

---
 .../sail-plan/src/resolver/query/aggregate.rs | 52 +++++++++++++++++--
 crates/sail-plan/src/resolver/query/sort.rs   |  3 +-
 crates/sail-plan/src/resolver/tree/window.rs  | 28 ++++++----
 3 files changed, 68 insertions(+), 15 deletions(-)

diff --git a/crates/sail-plan/src/resolver/query/aggregate.rs b/crates/sail-plan/src/resolver/query/aggregate.rs
index 7cc3f5e..16b4c8e 100644
--- a/crates/sail-plan/src/resolver/query/aggregate.rs
+++ b/crates/sail-plan/src/resolver/query/aggregate.rs
@@ -1,3 +1,4 @@
+use std::collections::HashMap;
 use std::sync::Arc;
 
 use datafusion::functions_aggregate::{average, bit_and_or_xor, bool_and_or, count, min_max, sum};
@@ -11,7 +12,7 @@ use datafusion_expr::logical_plan::{FetchType, SkipType};
 use datafusion_expr::utils::find_aggregate_exprs;
 use datafusion_expr::{
     Aggregate, AggregateUDF, Expr, ExprSchemable, Extension, LogicalPlan, LogicalPlanBuilder,
-    Projection, SortExpr, Volatility, bitwise_and, bitwise_shift_right, cast,
+    Projection, SortExpr, Volatility, bitwise_and, bitwise_shift_right, cast, ident,
 };
 use datafusion_spark::function::aggregate::try_sum::SparkTrySum;
 use sail_common::spec;
@@ -179,6 +180,35 @@ impl PlanResolver<'_> {
             .collect()
     }
 
+    /// Assigns aliases to the expressions whose schema names are the same as the one of
+    /// a preceding different expression. The schema name of an expression does not tell
+    /// such expressions apart in general (e.g. it does not show casts).
+    fn alias_ambiguous_expressions(
+        group_exprs: &[Expr],
+        aggregate_exprs: &[Expr],
+        state: &mut PlanResolverState,
+    ) -> HashMap<Expr, String> {
+        let mut names: HashMap<String, Expr> = HashMap::new();
+        let mut aliases = HashMap::new();
+        for expr in group_exprs.iter().chain(aggregate_exprs) {
+            if matches!(expr, Expr::GroupingSet(_)) || aliases.contains_key(expr) {
+                continue;
+            }
+            let name = expr.schema_name().to_string();
+            match names.get(&name) {
+                Some(x) if x != expr => {
+                    let alias = state.register_hidden_field_name(&name);
+                    aliases.insert(expr.clone(), alias);
+                }
+                Some(_) => {}
+                None => {
+                    names.insert(name, expr.clone());
+                }
+            }
+        }
+        aliases
+    }
+
     pub(super) fn rewrite_aggregate(
         &self,
         input: LogicalPlan,
@@ -207,8 +237,16 @@ impl PlanResolver<'_> {
             aggregate_candidates.push(having.clone());
         }
         let aggregate_exprs = find_aggregate_exprs(&aggregate_candidates);
+        let aliases = Self::alias_ambiguous_expressions(&group_exprs, &aggregate_exprs, state);
+        let alias = |expr: &Expr| match aliases.get(expr) {
+            Some(name) => expr.clone().alias(name.clone()),
+            None => expr.clone(),
+        };
         let plan = LogicalPlanBuilder::from(input)
-            .aggregate(group_exprs, aggregate_exprs.clone())?
+            .aggregate(
+                group_exprs.iter().map(alias).collect::<Vec<_>>(),
+                aggregate_exprs.iter().map(alias).collect::<Vec<_>>(),
+            )?
             .build()?;
         let (grouping_exprs, aggregate_or_grouping_exprs) = {
             let mut grouping_exprs = vec![];
@@ -250,7 +288,8 @@ impl PlanResolver<'_> {
                     expr,
                     metadata,
                 } = x;
-                let expr = Self::rebase_expression(expr, &aggregate_or_grouping_exprs, &plan)?;
+                let expr =
+                    Self::rebase_expression(expr, &aggregate_or_grouping_exprs, &aliases, &plan)?;
                 Ok(NamedExpr {
                     name,
                     expr,
@@ -261,7 +300,7 @@ impl PlanResolver<'_> {
         let plan = match having {
             Some(having) => {
                 let having =
-                    Self::rebase_expression(having.clone(), &aggregate_or_grouping_exprs, &plan)?;
+                    Self::rebase_expression(having, &aggregate_or_grouping_exprs, &aliases, &plan)?;
                 LogicalPlanBuilder::from(plan).having(having)?.build()?
             }
             None => plan,
@@ -979,11 +1018,14 @@ impl PlanResolver<'_> {
     pub(super) fn rebase_expression(
         expr: Expr,
         base: &[Expr],
+        aliases: &HashMap<Expr, String>,
         plan: &LogicalPlan,
     ) -> PlanResult<Expr> {
         Ok(expr
             .transform_down(|e| {
-                if base.contains(&e) {
+                if let Some(name) = aliases.get(&e) {
+                    Ok(Transformed::yes(ident(name)))
+                } else if base.contains(&e) {
                     Ok(Transformed::yes(
                         Self::expr_as_column_expr(&e, plan)
                             .map_err(|e| DataFusionError::External(Box::new(e)))?,
diff --git a/crates/sail-plan/src/resolver/query/sort.rs b/crates/sail-plan/src/resolver/query/sort.rs
index 65c31ba..70cf67f 100644
--- a/crates/sail-plan/src/resolver/query/sort.rs
+++ b/crates/sail-plan/src/resolver/query/sort.rs
@@ -1,3 +1,4 @@
+use std::collections::HashMap;
 use std::sync::Arc;
 
 use async_recursion::async_recursion;
@@ -203,7 +204,7 @@ impl PlanResolver<'_> {
             asc,
             nulls_first,
         } = sort;
-        let expr = Self::rebase_expression(expr, base, plan)?;
+        let expr = Self::rebase_expression(expr, base, &HashMap::new(), plan)?;
         Ok(Sort {
             expr,
             asc,
diff --git a/crates/sail-plan/src/resolver/tree/window.rs b/crates/sail-plan/src/resolver/tree/window.rs
index b028d17..986ecca 100644
--- a/crates/sail-plan/src/resolver/tree/window.rs
+++ b/crates/sail-plan/src/resolver/tree/window.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::mem;
 use std::sync::Arc;
 
@@ -23,11 +23,12 @@ use crate::resolver::tree::{PlanRewriter, empty_logical_plan};
 pub(crate) struct WindowRewriter<'s> {
     plan: LogicalPlan,
     state: &'s mut PlanResolverState,
-    /// Cache of already-processed window functions keyed by schema name.
+    /// Cache of already-processed window functions and the schema names they use.
     /// This deduplicates identical window function expressions that appear
     /// multiple times in the expression tree (e.g. when a division-by-zero
     /// guard wraps a window-function divisor in a CASE expression).
-    seen: HashMap<String, Expr>,
+    seen: HashMap<Expr, Expr>,
+    names: HashSet<String>,
     input_order_initialized: bool,
     stable_ordering: Option<Vec<SortExpr>>,
     stable_ordering_enforced: bool,
@@ -63,6 +64,7 @@ impl<'s> PlanRewriter<'s> for WindowRewriter<'s> {
             plan,
             state,
             seen: HashMap::new(),
+            names: HashSet::new(),
             input_order_initialized: false,
             stable_ordering: None,
             stable_ordering_enforced: false,
@@ -155,15 +157,23 @@ impl TreeNodeRewriter for WindowRewriter<'_> {
                     self.stable_ordering = Some(desired);
                 }
                 let node = Expr::WindowFunction(function);
-                let name = node.schema_name().to_string();
-                if let Some(replacement) = self.seen.get(&name) {
+                if let Some(replacement) = self.seen.get(&node) {
                     return Ok(Transformed::yes(replacement.clone()));
                 }
-                let plan = mem::replace(&mut self.plan, empty_logical_plan());
-                self.plan = LogicalPlan::Window(Window::try_new(vec![node], Arc::new(plan))?);
+                let name = node.schema_name().to_string();
                 let alias = self.state.register_field_name(&name);
-                let replacement = ident(name.clone()).alias(alias);
-                self.seen.insert(name, replacement.clone());
+                // Different window functions can have the same schema name (e.g. it does not
+                // show casts), so we need an alias to tell them apart.
+                let (expr, column) = if self.names.insert(name.clone()) {
+                    (node.clone(), name)
+                } else {
+                    let column = self.state.register_hidden_field_name(&name);
+                    (node.clone().alias(column.clone()), column)
+                };
+                let plan = mem::replace(&mut self.plan, empty_logical_plan());
+                self.plan = LogicalPlan::Window(Window::try_new(vec![expr], Arc::new(plan))?);
+                let replacement = ident(column).alias(alias);
+                self.seen.insert(node, replacement.clone());
                 Ok(Transformed::yes(replacement))
             }
             _ => Ok(Transformed::no(node)),
-- 
2.43.0


From 092ae1035be3a7b9f7620a08ffae1ed6cd178e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:01 +0000
Subject: [PATCH 23/33] fix: do not prune null keys by the dynamic filters of
 null-equal joins

---
 .../src/filter_pushdown.rs                    | 54 +++++++++++++++++++
 crates/sail-physical-optimizer/src/lib.rs     |  4 +-
 2 files changed, 57 insertions(+), 1 deletion(-)
 create mode 100644 crates/sail-physical-optimizer/src/filter_pushdown.rs

diff --git a/crates/sail-physical-optimizer/src/filter_pushdown.rs b/crates/sail-physical-optimizer/src/filter_pushdown.rs
new file mode 100644
index 0000000..3b7a6b1
--- /dev/null
+++ b/crates/sail-physical-optimizer/src/filter_pushdown.rs
@@ -0,0 +1,54 @@
+use std::sync::Arc;
+
+use datafusion::common::tree_node::TreeNode;
+use datafusion::common::{NullEquality, Result};
+use datafusion::config::ConfigOptions;
+use datafusion::physical_optimizer::PhysicalOptimizerRule;
+use datafusion::physical_optimizer::filter_pushdown::FilterPushdown;
+use datafusion::physical_plan::ExecutionPlan;
+use datafusion::physical_plan::joins::HashJoinExec;
+
+/// Runs DataFusion post-optimization filter pushdown without dynamic filters from joins
+/// if the plan has a hash join for which null keys are equal. The dynamic filter of
+/// such a join would reject the rows with null keys on the probe side.
+#[derive(Debug)]
+pub struct NullSafeFilterPushdown {
+    datafusion_filter_pushdown: FilterPushdown,
+}
+
+impl NullSafeFilterPushdown {
+    pub fn new_post_optimization() -> Self {
+        Self {
+            datafusion_filter_pushdown: FilterPushdown::new_post_optimization(),
+        }
+    }
+}
+
+impl PhysicalOptimizerRule for NullSafeFilterPushdown {
+    fn optimize(
+        &self,
+        plan: Arc<dyn ExecutionPlan>,
+        config: &ConfigOptions,
+    ) -> Result<Arc<dyn ExecutionPlan>> {
+        let has_null_equal_join = plan.exists(|node| {
+            Ok(node
+                .downcast_ref::<HashJoinExec>()
+                .is_some_and(|join| join.null_equality() == NullEquality::NullEqualsNull))
+        })?;
+        if has_null_equal_join {
+            let mut config = config.clone();
+            config.optimizer.enable_join_dynamic_filter_pushdown = false;
+            self.datafusion_filter_pushdown.optimize(plan, &config)
+        } else {
+            self.datafusion_filter_pushdown.optimize(plan, config)
+        }
+    }
+
+    fn name(&self) -> &str {
+        self.datafusion_filter_pushdown.name()
+    }
+
+    fn schema_check(&self) -> bool {
+        self.datafusion_filter_pushdown.schema_check()
+    }
+}
diff --git a/crates/sail-physical-optimizer/src/lib.rs b/crates/sail-physical-optimizer/src/lib.rs
index 20a3e6b..89077bb 100644
--- a/crates/sail-physical-optimizer/src/lib.rs
+++ b/crates/sail-physical-optimizer/src/lib.rs
@@ -23,6 +23,7 @@ use datafusion::physical_optimizer::window_topn::WindowTopN;
 use crate::barrier::EnforceBarrierPartitioning;
 use crate::collect_left::RewriteCollectLeftHashJoin;
 use crate::explicit_repartition::RewriteExplicitRepartition;
+use crate::filter_pushdown::NullSafeFilterPushdown;
 use crate::join_reorder::JoinReorder;
 pub use crate::join_reorder::JoinReorderOptions;
 use crate::projection_pushdown::LambdaSafeProjectionPushdown;
@@ -30,6 +31,7 @@ use crate::projection_pushdown::LambdaSafeProjectionPushdown;
 mod barrier;
 mod collect_left;
 mod explicit_repartition;
+mod filter_pushdown;
 mod join_reorder;
 mod projection_pushdown;
 
@@ -70,7 +72,7 @@ pub fn get_physical_optimizers(
     rules.push(Arc::new(LambdaSafeProjectionPushdown::new()));
     rules.push(Arc::new(PushdownSort::new()));
     rules.push(Arc::new(EnsureCooperative::new()));
-    rules.push(Arc::new(FilterPushdown::new_post_optimization()));
+    rules.push(Arc::new(NullSafeFilterPushdown::new_post_optimization()));
     rules.push(Arc::new(RewriteExplicitRepartition::new()));
     rules.push(Arc::new(RewriteCollectLeftHashJoin::new()));
     rules.push(Arc::new(EnforceBarrierPartitioning::new()));
-- 
2.43.0


From 8397c05d51fd94cc2e7efcfce1dc28992b81a146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:22 +0000
Subject: [PATCH 24/33] fix: keep the shared state of joins in one partition in
 distributed execution

---
 .../sail-execution/src/job_graph/planner.rs   | 41 +++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/crates/sail-execution/src/job_graph/planner.rs b/crates/sail-execution/src/job_graph/planner.rs
index 8f0bbf3..705a649 100644
--- a/crates/sail-execution/src/job_graph/planner.rs
+++ b/crates/sail-execution/src/job_graph/planner.rs
@@ -49,6 +49,7 @@ impl JobGraph {
     ) -> ExecutionResult<Self> {
         let plan = ensure_single_input_partition_for_global_limit(plan)?;
         let plan = ensure_partitioned_hash_join_if_build_side_emits_unmatched_rows(plan)?;
+        let plan = ensure_single_probe_partition_if_join_state_is_shared(plan)?;
         let mut graph = Self {
             stages: vec![],
             schema: plan.schema(),
@@ -144,6 +145,11 @@ fn ensure_partitioned_hash_join_if_build_side_emits_unmatched_rows(
             return Ok(Transformed::no(plan));
         }
 
+        if join.null_aware {
+            // A null-aware join has to see all the rows of the probe side.
+            return Ok(Transformed::no(plan));
+        }
+
         // Convert the join to a partitioned hash join with explicit repartitioning on both sides,
         // so each output partition can be executed independently in the distributed engine.
         let partition_count = join.right.output_partitioning().partition_count();
@@ -167,6 +173,41 @@ fn ensure_partitioned_hash_join_if_build_side_emits_unmatched_rows(
     Ok(result.data)
 }
 
+/// Ensures that the probe side has a single partition for the joins whose probe partitions
+/// share state (the bitmap of the matched rows of the build side, or the NULLs that
+/// a null-aware join has found), since this is not yet possible in distributed execution.
+fn ensure_single_probe_partition_if_join_state_is_shared(
+    plan: Arc<dyn ExecutionPlan>,
+) -> ExecutionResult<Arc<dyn ExecutionPlan>> {
+    let result = plan.transform_up(|plan| {
+        let shared = if let Some(join) = plan.downcast_ref::<NestedLoopJoinExec>() {
+            matches!(
+                join.join_type(),
+                JoinType::Left
+                    | JoinType::LeftAnti
+                    | JoinType::LeftSemi
+                    | JoinType::LeftMark
+                    | JoinType::Full
+            )
+        } else if let Some(join) = plan.downcast_ref::<HashJoinExec>() {
+            join.mode == PartitionMode::CollectLeft && join.null_aware
+        } else {
+            false
+        };
+        if !shared {
+            return Ok(Transformed::no(plan));
+        }
+        let (left, right) = plan.children().two()?;
+        if right.output_partitioning().partition_count() <= 1 {
+            return Ok(Transformed::no(plan));
+        }
+        let left = left.clone();
+        let right = Arc::new(CoalescePartitionsExec::new(right.clone()));
+        Ok(Transformed::yes(plan.with_new_children(vec![left, right])?))
+    })?;
+    Ok(result.data)
+}
+
 /// A flag to indicate how the partitions from physical plan execution are used.
 #[derive(Clone, Copy)]
 enum PartitionUsage {
-- 
2.43.0


From 5875eeb660e7ce0e5f7533fb2f1e9b7b4687a860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:13 +0000
Subject: [PATCH 25/33] fix: wait for all the partitions of forward inputs that
 tasks share

---
 .../src/driver/job_scheduler/topology.rs         | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/crates/sail-execution/src/driver/job_scheduler/topology.rs b/crates/sail-execution/src/driver/job_scheduler/topology.rs
index fb9496a..ed85b88 100644
--- a/crates/sail-execution/src/driver/job_scheduler/topology.rs
+++ b/crates/sail-execution/src/driver/job_scheduler/topology.rs
@@ -171,8 +171,18 @@ impl JobTopology {
         }
         for (r, region) in regions.iter_mut().enumerate() {
             for task in &region.tasks {
+                let task_partitions = graph.stages()[task.stage]
+                    .plan
+                    .output_partitioning()
+                    .partition_count();
                 for input in &graph.stages()[task.stage].inputs {
-                    if matches!(input.mode, InputMode::Forward) {
+                    let partitions = graph.stages()[input.stage]
+                        .plan
+                        .output_partitioning()
+                        .partition_count();
+                    // A task may read other partitions of a forward input if the partition counts
+                    // are different (e.g. for the build side of a join, or for a union).
+                    if matches!(input.mode, InputMode::Forward) && partitions == task_partitions {
                         if let Some(&d) = task_to_region.get(&TaskTopology {
                             stage: input.stage,
                             partition: task.partition,
@@ -181,10 +191,6 @@ impl JobTopology {
                             region.dependencies.insert(d);
                         }
                     } else {
-                        let partitions = graph.stages()[input.stage]
-                            .plan
-                            .output_partitioning()
-                            .partition_count();
                         for p in 0..partitions {
                             if let Some(&d) = task_to_region.get(&TaskTopology {
                                 stage: input.stage,
-- 
2.43.0


From fc07251640d9831fc225c2406d24df56ebf9a272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:26 +0000
Subject: [PATCH 26/33] fix: do not remove sort expressions by wrong functional
 dependencies

---
 .../src/eliminate_duplicated_expr.rs          | 59 +++++++++++++++++++
 crates/sail-logical-optimizer/src/lib.rs      | 11 +++-
 2 files changed, 69 insertions(+), 1 deletion(-)
 create mode 100644 crates/sail-logical-optimizer/src/eliminate_duplicated_expr.rs

diff --git a/crates/sail-logical-optimizer/src/eliminate_duplicated_expr.rs b/crates/sail-logical-optimizer/src/eliminate_duplicated_expr.rs
new file mode 100644
index 0000000..d5c370b
--- /dev/null
+++ b/crates/sail-logical-optimizer/src/eliminate_duplicated_expr.rs
@@ -0,0 +1,59 @@
+use datafusion::optimizer::eliminate_duplicated_expr::EliminateDuplicatedExpr;
+use datafusion::optimizer::{ApplyOrder, OptimizerConfig, OptimizerRule};
+use datafusion_common::Result;
+use datafusion_common::tree_node::{Transformed, TreeNode};
+use datafusion_expr::{Expr, LogicalPlan};
+
+/// Runs the DataFusion rule, except for the sorts for which it may remove expressions that
+/// are still needed. The rule relies on functional dependencies, which DataFusion derives with
+/// wrong column indices for projections that have expressions other than columns.
+#[derive(Debug, Default)]
+pub struct EliminateDuplicatedExprSafely {
+    inner: EliminateDuplicatedExpr,
+}
+
+impl EliminateDuplicatedExprSafely {
+    pub fn new() -> Self {
+        Self::default()
+    }
+}
+
+fn is_column(expr: &Expr) -> bool {
+    match expr {
+        Expr::Column(_) => true,
+        Expr::Alias(alias) => is_column(&alias.expr),
+        _ => false,
+    }
+}
+
+impl OptimizerRule for EliminateDuplicatedExprSafely {
+    fn name(&self) -> &str {
+        self.inner.name()
+    }
+
+    fn apply_order(&self) -> Option<ApplyOrder> {
+        self.inner.apply_order()
+    }
+
+    fn supports_rewrite(&self) -> bool {
+        self.inner.supports_rewrite()
+    }
+
+    fn rewrite(
+        &self,
+        plan: LogicalPlan,
+        config: &dyn OptimizerConfig,
+    ) -> Result<Transformed<LogicalPlan>> {
+        if let LogicalPlan::Sort(sort) = &plan
+            && sort.input.exists(|plan| {
+                Ok(match plan {
+                    LogicalPlan::Projection(projection) => !projection.expr.iter().all(is_column),
+                    _ => false,
+                })
+            })?
+        {
+            return Ok(Transformed::no(plan));
+        }
+        self.inner.rewrite(plan, config)
+    }
+}
diff --git a/crates/sail-logical-optimizer/src/lib.rs b/crates/sail-logical-optimizer/src/lib.rs
index 16f4aa0..76a56f2 100644
--- a/crates/sail-logical-optimizer/src/lib.rs
+++ b/crates/sail-logical-optimizer/src/lib.rs
@@ -2,9 +2,11 @@ use std::sync::Arc;
 
 use datafusion::optimizer::{Analyzer, AnalyzerRule, Optimizer, OptimizerRule};
 
+mod eliminate_duplicated_expr;
 mod lateral_join;
 mod resolve_lambda_variables;
 
+use eliminate_duplicated_expr::EliminateDuplicatedExprSafely;
 use lateral_join::DecorrelateLateralProjection;
 use resolve_lambda_variables::ResolveLambdaVariables;
 
@@ -31,7 +33,14 @@ pub fn default_optimizer_rules() -> Vec<Arc<dyn OptimizerRule + Send + Sync>> {
     // in Filter/Aggregate) are left for DataFusion's `DecorrelateLateralJoin`.
     let mut custom: Vec<Arc<dyn OptimizerRule + Send + Sync>> =
         vec![Arc::new(DecorrelateLateralProjection::new())];
-    custom.extend(rules);
+    let eliminate_duplicated_expr = Arc::new(EliminateDuplicatedExprSafely::new());
+    custom.extend(rules.into_iter().map(|rule| {
+        if rule.name() == eliminate_duplicated_expr.name() {
+            eliminate_duplicated_expr.clone()
+        } else {
+            rule
+        }
+    }));
     // `ResolveLambdaVariables` must run after the built-in rules: constant
     // folding can change the type or nullability of higher-order function
     // arguments, and the lambda variable fields must be refreshed to match.
-- 
2.43.0


From 615c0dcb4d59354fcbc833aac159e1408d3cd84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:23 +0000
Subject: [PATCH 27/33] fix: keep scalar subqueries that were pushed down to
 scans in distributed execution

---
 .../sail-execution/src/job_graph/planner.rs   | 28 +++++++++++
 crates/sail-execution/src/proto/codec.rs      | 24 +++++-----
 crates/sail-execution/src/proto/converter.rs  | 47 +++++++++++++++++++
 crates/sail-execution/src/proto/decode.rs     |  8 ++--
 4 files changed, 90 insertions(+), 17 deletions(-)

diff --git a/crates/sail-execution/src/job_graph/planner.rs b/crates/sail-execution/src/job_graph/planner.rs
index 705a649..1cb158a 100644
--- a/crates/sail-execution/src/job_graph/planner.rs
+++ b/crates/sail-execution/src/job_graph/planner.rs
@@ -2,6 +2,8 @@ use std::sync::Arc;
 
 use datafusion::common::tree_node::{Transformed, TransformedResult, TreeNode};
 use datafusion::common::{JoinType, Result, plan_datafusion_err};
+use datafusion::datasource::physical_plan::FileScanConfig;
+use datafusion::datasource::source::DataSourceExec;
 use datafusion::logical_expr::execution_props::ScalarSubqueryResults;
 use datafusion::physical_expr::scalar_subquery::ScalarSubqueryExpr;
 use datafusion::physical_expr::window::WindowExpr;
@@ -12,6 +14,7 @@ use datafusion::physical_plan::coop::CooperativeExec;
 use datafusion::physical_plan::filter::FilterExec;
 use datafusion::physical_plan::joins::{
     CrossJoinExec, HashJoinExec, NestedLoopJoinExec, PartitionMode, PiecewiseMergeJoinExec,
+    SortMergeJoinExec,
 };
 use datafusion::physical_plan::limit::GlobalLimitExec;
 use datafusion::physical_plan::projection::ProjectionExec;
@@ -711,6 +714,12 @@ fn plan_node_has_scalar_subquery_expr(plan: &Arc<dyn ExecutionPlan>) -> bool {
             .filter()
             .is_some_and(|filter| physical_expr_has_scalar_subquery(filter.expression()));
     }
+    if let Some(join) = plan.downcast_ref::<SortMergeJoinExec>() {
+        return join
+            .filter()
+            .as_ref()
+            .is_some_and(|filter| physical_expr_has_scalar_subquery(filter.expression()));
+    }
     if let Some(join) = plan.downcast_ref::<PiecewiseMergeJoinExec>() {
         return physical_expr_has_scalar_subquery(&join.on.0)
             || physical_expr_has_scalar_subquery(&join.on.1);
@@ -727,9 +736,28 @@ fn plan_node_has_scalar_subquery_expr(plan: &Arc<dyn ExecutionPlan>) -> bool {
             .iter()
             .any(window_expr_has_scalar_subquery);
     }
+    if let Some(source) = plan.downcast_ref::<DataSourceExec>() {
+        // Projections and filters may have been pushed down to the file scan.
+        return source
+            .data_source()
+            .downcast_ref::<FileScanConfig>()
+            .is_some_and(file_scan_has_scalar_subquery_expr);
+    }
     false
 }
 
+fn file_scan_has_scalar_subquery_expr(config: &FileScanConfig) -> bool {
+    let source = config.file_source();
+    source
+        .filter()
+        .is_some_and(|filter| physical_expr_has_scalar_subquery(&filter))
+        || source.projection().is_some_and(|projection| {
+            projection
+                .iter()
+                .any(|expr| physical_expr_has_scalar_subquery(&expr.expr))
+        })
+}
+
 fn aggregate_has_scalar_subquery_expr(aggregate: &AggregateExec) -> bool {
     aggregate
         .group_expr()
diff --git a/crates/sail-execution/src/proto/codec.rs b/crates/sail-execution/src/proto/codec.rs
index 4c6d164..f8a5528 100644
--- a/crates/sail-execution/src/proto/codec.rs
+++ b/crates/sail-execution/src/proto/codec.rs
@@ -49,6 +49,7 @@ use datafusion::physical_plan::sorts::partitioned_topk::PartitionedTopKExec;
 use datafusion::physical_plan::work_table::WorkTableExec;
 use datafusion::physical_plan::{ExecutionPlan, PlanProperties};
 use datafusion_proto::generated::datafusion_common as gen_datafusion_common;
+use datafusion_proto::physical_plan::PhysicalExtensionCodec;
 use datafusion_proto::physical_plan::from_proto::{
     parse_physical_sort_exprs, parse_protobuf_file_scan_config, parse_protobuf_file_scan_schema,
     parse_protobuf_partitioning, parse_table_schema_from_proto,
@@ -56,7 +57,6 @@ use datafusion_proto::physical_plan::from_proto::{
 use datafusion_proto::physical_plan::to_proto::{
     serialize_file_scan_config, serialize_partitioning, serialize_physical_sort_exprs,
 };
-use datafusion_proto::physical_plan::{PhysicalExtensionCodec, PhysicalPlanDecodeContext};
 use datafusion_proto::protobuf::{JoinType as ProtoJoinType, PhysicalSortExprNode};
 use datafusion_spark::function::aggregate::try_sum::SparkTrySum;
 use datafusion_spark::function::array::shuffle::SparkShuffle;
@@ -308,7 +308,7 @@ use crate::plan::r#gen::{
     LambdaExprNode, LambdaVariableExprNode,
 };
 use crate::plan::{StageInputExec, r#gen};
-use crate::proto::converter::RemotePhysicalProtoConverter;
+use crate::proto::converter::{RemotePhysicalProtoConverter, decode_context};
 use crate::proto::decode::{
     try_decode_field_ref, try_decode_message, try_decode_physical_expr, try_decode_physical_plan,
     try_decode_schema,
@@ -549,7 +549,7 @@ impl PhysicalExtensionCodec for RemoteExecutionCodec {
                 let table_schema = parse_table_schema_from_proto(&base_config)?;
                 let source = parse_protobuf_file_scan_config(
                     &base_config,
-                    &PhysicalPlanDecodeContext::new(ctx, self),
+                    &decode_context(ctx, self),
                     &RemotePhysicalProtoConverter {},
                     Arc::new(JsonSource::new(table_schema)),
                 )?;
@@ -570,7 +570,7 @@ impl PhysicalExtensionCodec for RemoteExecutionCodec {
                 let source = CsvSource::new(table_schema).with_csv_options(csv_options);
                 let source = parse_protobuf_file_scan_config(
                     &base_config,
-                    &PhysicalPlanDecodeContext::new(ctx, self),
+                    &decode_context(ctx, self),
                     &RemotePhysicalProtoConverter {},
                     Arc::new(source),
                 )?;
@@ -616,7 +616,7 @@ impl PhysicalExtensionCodec for RemoteExecutionCodec {
                 }
                 let source = parse_protobuf_file_scan_config(
                     &base_config,
-                    &PhysicalPlanDecodeContext::new(ctx, self),
+                    &decode_context(ctx, self),
                     &RemotePhysicalProtoConverter {},
                     Arc::new(source),
                 )?;
@@ -653,7 +653,7 @@ impl PhysicalExtensionCodec for RemoteExecutionCodec {
                 let table_schema = parse_table_schema_from_proto(&base_config)?;
                 let source = parse_protobuf_file_scan_config(
                     &base_config,
-                    &PhysicalPlanDecodeContext::new(ctx, self),
+                    &decode_context(ctx, self),
                     &RemotePhysicalProtoConverter {},
                     Arc::new(ArrowSource::new_file_source(table_schema)),
                 )?;
@@ -681,7 +681,7 @@ impl PhysicalExtensionCodec for RemoteExecutionCodec {
                 let table_schema = parse_table_schema_from_proto(&base_config)?;
                 let source = parse_protobuf_file_scan_config(
                     &base_config,
-                    &PhysicalPlanDecodeContext::new(ctx, self),
+                    &decode_context(ctx, self),
                     &RemotePhysicalProtoConverter {},
                     Arc::new(TextSource::new(table_schema, whole_text, line_sep)),
                 )?;
@@ -695,7 +695,7 @@ impl PhysicalExtensionCodec for RemoteExecutionCodec {
                 let table_schema = parse_table_schema_from_proto(&base_config)?;
                 let source = parse_protobuf_file_scan_config(
                     &base_config,
-                    &PhysicalPlanDecodeContext::new(ctx, self),
+                    &decode_context(ctx, self),
                     &RemotePhysicalProtoConverter {},
                     Arc::new(BinarySource::new(table_schema)),
                 )?;
@@ -707,7 +707,7 @@ impl PhysicalExtensionCodec for RemoteExecutionCodec {
                 let table_schema = parse_table_schema_from_proto(&base_config)?;
                 let source = parse_protobuf_file_scan_config(
                     &base_config,
-                    &PhysicalPlanDecodeContext::new(ctx, self),
+                    &decode_context(ctx, self),
                     &RemotePhysicalProtoConverter {},
                     Arc::new(AvroSource::new(table_schema)),
                 )?;
@@ -1211,7 +1211,7 @@ impl PhysicalExtensionCodec for RemoteExecutionCodec {
                     .map(|physical_sort_expr_nodes| {
                         parse_physical_sort_exprs(
                             physical_sort_expr_nodes,
-                            &PhysicalPlanDecodeContext::new(ctx, self),
+                            &decode_context(ctx, self),
                             &schema,
                             &RemotePhysicalProtoConverter {},
                         )
@@ -4462,7 +4462,7 @@ impl RemoteExecutionCodec {
         let lex_ordering = LexOrdering::new(
             parse_physical_sort_exprs(
                 &lex_ordering,
-                &PhysicalPlanDecodeContext::new(ctx, self),
+                &decode_context(ctx, self),
                 schema,
                 &RemotePhysicalProtoConverter {},
             )
@@ -4922,7 +4922,7 @@ impl RemoteExecutionCodec {
         let partitioning = try_decode_message(buf)?;
         parse_protobuf_partitioning(
             Some(&partitioning),
-            &PhysicalPlanDecodeContext::new(ctx, self),
+            &decode_context(ctx, self),
             schema,
             &RemotePhysicalProtoConverter {},
         )?
diff --git a/crates/sail-execution/src/proto/converter.rs b/crates/sail-execution/src/proto/converter.rs
index 5d44b3f..c8dd3d2 100644
--- a/crates/sail-execution/src/proto/converter.rs
+++ b/crates/sail-execution/src/proto/converter.rs
@@ -3,6 +3,8 @@ use std::sync::Arc;
 
 use datafusion::arrow::datatypes::{FieldRef, Schema};
 use datafusion::common::{Result, plan_datafusion_err, plan_err};
+use datafusion::execution::TaskContext;
+use datafusion::logical_expr::execution_props::ScalarSubqueryResults;
 use datafusion::logical_expr::{LambdaParametersProgress, ValueOrLambda};
 use datafusion::physical_expr::expressions::{LambdaExpr, LambdaVariable};
 use datafusion::physical_expr::{HigherOrderFunctionExpr, PhysicalExpr};
@@ -11,6 +13,7 @@ use datafusion_proto::physical_plan::to_proto::serialize_physical_expr_with_conv
 use datafusion_proto::physical_plan::{
     PhysicalExtensionCodec, PhysicalPlanDecodeContext, PhysicalProtoConverterExtension,
 };
+use datafusion_proto::protobuf::physical_plan_node::PhysicalPlanType;
 use datafusion_proto::protobuf::{
     PhysicalExprNode, PhysicalExtensionExprNode, PhysicalPlanNode, physical_expr_node,
 };
@@ -25,6 +28,42 @@ use crate::proto::encode::{try_encode_field_ref, try_encode_higher_order_udf};
 
 pub(super) struct RemotePhysicalProtoConverter;
 
+/// The scalar subquery results for the plan that is being decoded.
+struct ScalarSubqueryScope {
+    results: ScalarSubqueryResults,
+}
+
+fn with_scalar_subquery_results(ctx: &TaskContext, results: &ScalarSubqueryResults) -> TaskContext {
+    let config = ctx
+        .session_config()
+        .clone()
+        .with_extension(Arc::new(ScalarSubqueryScope {
+            results: results.clone(),
+        }));
+    TaskContext::new(
+        ctx.task_id(),
+        ctx.session_id(),
+        config,
+        ctx.scalar_functions().clone(),
+        ctx.higher_order_functions().clone(),
+        ctx.aggregate_functions().clone(),
+        ctx.window_functions().clone(),
+        ctx.runtime_env(),
+    )
+}
+
+/// Creates the context for decoding (parts of) plans with the scalar subquery results in scope.
+pub(super) fn decode_context<'a>(
+    ctx: &'a TaskContext,
+    codec: &'a dyn PhysicalExtensionCodec,
+) -> PhysicalPlanDecodeContext<'a> {
+    let context = PhysicalPlanDecodeContext::new(ctx, codec);
+    match ctx.session_config().get_extension::<ScalarSubqueryScope>() {
+        Some(scope) => context.with_scalar_subquery_results(scope.results.clone()),
+        None => context,
+    }
+}
+
 impl Debug for RemotePhysicalProtoConverter {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         write!(f, "RemotePhysicalProtoConverter")
@@ -37,6 +76,14 @@ impl PhysicalProtoConverterExtension for RemotePhysicalProtoConverter {
         proto: &PhysicalPlanNode,
         ctx: &PhysicalPlanDecodeContext<'_>,
     ) -> Result<Arc<dyn ExecutionPlan>> {
+        if let Some(PhysicalPlanType::Extension(_)) = &proto.physical_plan_type
+            && let Some(results) = ctx.scalar_subquery_results()
+        {
+            // The extension codec only receives the task context.
+            let task_ctx = with_scalar_subquery_results(ctx.task_ctx(), results);
+            let ctx = decode_context(&task_ctx, ctx.codec());
+            return self.default_proto_to_execution_plan(proto, &ctx);
+        }
         self.default_proto_to_execution_plan(proto, ctx)
     }
 
diff --git a/crates/sail-execution/src/proto/decode.rs b/crates/sail-execution/src/proto/decode.rs
index 3062eae..f034496 100644
--- a/crates/sail-execution/src/proto/decode.rs
+++ b/crates/sail-execution/src/proto/decode.rs
@@ -7,9 +7,7 @@ use datafusion::logical_expr::HigherOrderUDF;
 use datafusion::physical_expr::PhysicalExpr;
 use datafusion::physical_plan::ExecutionPlan;
 use datafusion_proto::generated::datafusion_common as gen_datafusion_common;
-use datafusion_proto::physical_plan::{
-    PhysicalExtensionCodec, PhysicalPlanDecodeContext, PhysicalProtoConverterExtension,
-};
+use datafusion_proto::physical_plan::{PhysicalExtensionCodec, PhysicalProtoConverterExtension};
 use datafusion_proto::protobuf::{PhysicalExprNode, PhysicalPlanNode};
 use prost::Message;
 use sail_function::scalar::array::spark_array_aggregate::SparkArrayAggregate;
@@ -23,7 +21,7 @@ use sail_function::scalar::datetime::convert_tz::{ConvertTz, ConvertTzLazy};
 
 use crate::plan::r#gen;
 use crate::plan::r#gen::higher_order_udf::HigherOrderUdfKind;
-use crate::proto::converter::RemotePhysicalProtoConverter;
+use crate::proto::converter::{RemotePhysicalProtoConverter, decode_context};
 
 pub fn decode_remote_physical_plan(
     ctx: &TaskContext,
@@ -99,7 +97,7 @@ pub(super) fn proto_to_physical_expr(
     schema: &Schema,
 ) -> Result<Arc<dyn PhysicalExpr>> {
     let converter = RemotePhysicalProtoConverter;
-    converter.proto_to_physical_expr(expr, schema, &PhysicalPlanDecodeContext::new(ctx, codec))
+    converter.proto_to_physical_expr(expr, schema, &decode_context(ctx, codec))
 }
 
 pub(super) fn try_decode_higher_order_udf(
-- 
2.43.0


From 169466f9d4c66f29b1201efff087662648978b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:23 +0000
Subject: [PATCH 28/33] fix: accept grouping_id without arguments in other
 expressions

---
 crates/sail-function/src/aggregate/grouping_id.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/sail-function/src/aggregate/grouping_id.rs b/crates/sail-function/src/aggregate/grouping_id.rs
index 5ec7b16..9085d58 100644
--- a/crates/sail-function/src/aggregate/grouping_id.rs
+++ b/crates/sail-function/src/aggregate/grouping_id.rs
@@ -1,7 +1,9 @@
 use datafusion::arrow::datatypes::{DataType, Field, FieldRef};
 use datafusion::common::{Result, not_impl_err};
 use datafusion::logical_expr::function::{AccumulatorArgs, StateFieldsArgs};
-use datafusion::logical_expr::{Accumulator, AggregateUDFImpl, Signature, Volatility};
+use datafusion::logical_expr::{
+    Accumulator, AggregateUDFImpl, Signature, TypeSignature, Volatility,
+};
 
 #[derive(PartialEq, Eq, Hash, Debug)]
 pub struct GroupingIdFunction {
@@ -17,7 +19,10 @@ impl Default for GroupingIdFunction {
 impl GroupingIdFunction {
     pub fn new() -> Self {
         Self {
-            signature: Signature::variadic_any(Volatility::Immutable),
+            signature: Signature::one_of(
+                vec![TypeSignature::Nullary, TypeSignature::VariadicAny],
+                Volatility::Immutable,
+            ),
         }
     }
 }
-- 
2.43.0


From df3eba8cf1ff4cce247ea2b0cde2e203e3c8dc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:23 +0000
Subject: [PATCH 29/33] fix: do not apply the null equality of a join to the
 inner joins below it

---
 .../src/eliminate_cross_join.rs               | 47 +++++++++++++++++++
 .../src/eliminate_duplicated_expr.rs          |  4 --
 crates/sail-logical-optimizer/src/lib.rs      |  7 ++-
 3 files changed, 53 insertions(+), 5 deletions(-)
 create mode 100644 crates/sail-logical-optimizer/src/eliminate_cross_join.rs

diff --git a/crates/sail-logical-optimizer/src/eliminate_cross_join.rs b/crates/sail-logical-optimizer/src/eliminate_cross_join.rs
new file mode 100644
index 0000000..3860e40
--- /dev/null
+++ b/crates/sail-logical-optimizer/src/eliminate_cross_join.rs
@@ -0,0 +1,47 @@
+use datafusion::optimizer::eliminate_cross_join::EliminateCrossJoin;
+use datafusion::optimizer::{ApplyOrder, OptimizerConfig, OptimizerRule};
+use datafusion_common::tree_node::{Transformed, TreeNode};
+use datafusion_common::{JoinType, NullEquality, Result};
+use datafusion_expr::LogicalPlan;
+
+/// Runs the DataFusion rule, except for the plans that have inner joins with null-equal keys.
+/// The rule collects the keys of nested inner joins regardless of how the joins compare nulls,
+/// and applies the null equality of the outermost join to all of them.
+#[derive(Debug, Default)]
+pub struct EliminateCrossJoinSafely {
+    inner: EliminateCrossJoin,
+}
+
+impl EliminateCrossJoinSafely {
+    pub fn new() -> Self {
+        Self::default()
+    }
+}
+
+impl OptimizerRule for EliminateCrossJoinSafely {
+    fn name(&self) -> &str {
+        self.inner.name()
+    }
+
+    fn apply_order(&self) -> Option<ApplyOrder> {
+        self.inner.apply_order()
+    }
+
+    fn rewrite(
+        &self,
+        plan: LogicalPlan,
+        config: &dyn OptimizerConfig,
+    ) -> Result<Transformed<LogicalPlan>> {
+        if plan.exists(|plan| {
+            Ok(matches!(
+                plan,
+                LogicalPlan::Join(join)
+                    if join.join_type == JoinType::Inner
+                        && join.null_equality == NullEquality::NullEqualsNull
+            ))
+        })? {
+            return Ok(Transformed::no(plan));
+        }
+        self.inner.rewrite(plan, config)
+    }
+}
diff --git a/crates/sail-logical-optimizer/src/eliminate_duplicated_expr.rs b/crates/sail-logical-optimizer/src/eliminate_duplicated_expr.rs
index d5c370b..48a54a2 100644
--- a/crates/sail-logical-optimizer/src/eliminate_duplicated_expr.rs
+++ b/crates/sail-logical-optimizer/src/eliminate_duplicated_expr.rs
@@ -35,10 +35,6 @@ impl OptimizerRule for EliminateDuplicatedExprSafely {
         self.inner.apply_order()
     }
 
-    fn supports_rewrite(&self) -> bool {
-        self.inner.supports_rewrite()
-    }
-
     fn rewrite(
         &self,
         plan: LogicalPlan,
diff --git a/crates/sail-logical-optimizer/src/lib.rs b/crates/sail-logical-optimizer/src/lib.rs
index 76a56f2..050a1ce 100644
--- a/crates/sail-logical-optimizer/src/lib.rs
+++ b/crates/sail-logical-optimizer/src/lib.rs
@@ -2,10 +2,12 @@ use std::sync::Arc;
 
 use datafusion::optimizer::{Analyzer, AnalyzerRule, Optimizer, OptimizerRule};
 
+mod eliminate_cross_join;
 mod eliminate_duplicated_expr;
 mod lateral_join;
 mod resolve_lambda_variables;
 
+use eliminate_cross_join::EliminateCrossJoinSafely;
 use eliminate_duplicated_expr::EliminateDuplicatedExprSafely;
 use lateral_join::DecorrelateLateralProjection;
 use resolve_lambda_variables::ResolveLambdaVariables;
@@ -33,10 +35,13 @@ pub fn default_optimizer_rules() -> Vec<Arc<dyn OptimizerRule + Send + Sync>> {
     // in Filter/Aggregate) are left for DataFusion's `DecorrelateLateralJoin`.
     let mut custom: Vec<Arc<dyn OptimizerRule + Send + Sync>> =
         vec![Arc::new(DecorrelateLateralProjection::new())];
+    let eliminate_cross_join = Arc::new(EliminateCrossJoinSafely::new());
     let eliminate_duplicated_expr = Arc::new(EliminateDuplicatedExprSafely::new());
     custom.extend(rules.into_iter().map(|rule| {
         if rule.name() == eliminate_duplicated_expr.name() {
-            eliminate_duplicated_expr.clone()
+            eliminate_duplicated_expr.clone() as _
+        } else if rule.name() == eliminate_cross_join.name() {
+            eliminate_cross_join.clone()
         } else {
             rule
         }
-- 
2.43.0


From ecfc9d2978642c703caa815102a00ba45de29bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:20 +0000
Subject: [PATCH 30/33] fix: keep empty projections of joins in distributed
 execution

---
 crates/sail-execution/src/proto/encode.rs | 30 +++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/crates/sail-execution/src/proto/encode.rs b/crates/sail-execution/src/proto/encode.rs
index 132cf5e..be7c96a 100644
--- a/crates/sail-execution/src/proto/encode.rs
+++ b/crates/sail-execution/src/proto/encode.rs
@@ -6,6 +6,8 @@ use datafusion::common::{Result, plan_err};
 use datafusion::datasource::source::DataSourceExec;
 use datafusion::physical_expr::{HigherOrderFunctionExpr, PhysicalExpr};
 use datafusion::physical_plan::ExecutionPlan;
+use datafusion::physical_plan::joins::{HashJoinExec, NestedLoopJoinExec};
+use datafusion::physical_plan::projection::{ProjectionExec, ProjectionExpr};
 use datafusion_proto::generated::datafusion_common as gen_datafusion_common;
 use datafusion_proto::physical_plan::{PhysicalExtensionCodec, PhysicalProtoConverterExtension};
 use datafusion_proto::protobuf::{PhysicalExprNode, PhysicalPlanNode};
@@ -39,9 +41,37 @@ pub fn encode_remote_physical_plan(
             }
         })
         .data()?;
+    let plan = plan.transform_up(extract_empty_join_projection).data()?;
     try_encode_physical_plan(codec, plan)
 }
 
+/// Replaces an empty projection embedded in a join by an explicit one.
+///
+/// The encoding of joins by DataFusion does not tell an empty projection from no projection.
+fn extract_empty_join_projection(
+    node: Arc<dyn ExecutionPlan>,
+) -> Result<Transformed<Arc<dyn ExecutionPlan>>> {
+    let join = if let Some(join) = node.downcast_ref::<HashJoinExec>()
+        && join.projection.as_ref().is_some_and(|x| x.is_empty())
+    {
+        join.builder().with_projection(None).build_exec()?
+    } else if let Some(join) = node.downcast_ref::<NestedLoopJoinExec>()
+        && join.projection().as_ref().is_some_and(|x| x.is_empty())
+    {
+        Arc::new(NestedLoopJoinExec::try_new(
+            Arc::clone(join.left()),
+            Arc::clone(join.right()),
+            join.filter().cloned(),
+            join.join_type(),
+            None,
+        )?)
+    } else {
+        return Ok(Transformed::no(node));
+    };
+    let projection = ProjectionExec::try_new(Vec::<ProjectionExpr>::new(), join)?;
+    Ok(Transformed::yes(Arc::new(projection)))
+}
+
 pub fn encode_remote_physical_expr(
     codec: &dyn PhysicalExtensionCodec,
     expr: &Arc<dyn PhysicalExpr>,
-- 
2.43.0


From 9f31b5da0cf62c192296e7ac13b2fe0f3c1eda5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:20 +0000
Subject: [PATCH 31/33] fix: do not push predicates without columns below
 aggregates that have a row for empty inputs

---
 crates/sail-logical-optimizer/src/lib.rs      |  5 ++
 .../src/push_down_filter.rs                   | 57 +++++++++++++++++++
 2 files changed, 62 insertions(+)
 create mode 100644 crates/sail-logical-optimizer/src/push_down_filter.rs

diff --git a/crates/sail-logical-optimizer/src/lib.rs b/crates/sail-logical-optimizer/src/lib.rs
index 050a1ce..1600572 100644
--- a/crates/sail-logical-optimizer/src/lib.rs
+++ b/crates/sail-logical-optimizer/src/lib.rs
@@ -5,11 +5,13 @@ use datafusion::optimizer::{Analyzer, AnalyzerRule, Optimizer, OptimizerRule};
 mod eliminate_cross_join;
 mod eliminate_duplicated_expr;
 mod lateral_join;
+mod push_down_filter;
 mod resolve_lambda_variables;
 
 use eliminate_cross_join::EliminateCrossJoinSafely;
 use eliminate_duplicated_expr::EliminateDuplicatedExprSafely;
 use lateral_join::DecorrelateLateralProjection;
+use push_down_filter::PushDownFilterSafely;
 use resolve_lambda_variables::ResolveLambdaVariables;
 
 pub fn default_analyzer_rules() -> Vec<Arc<dyn AnalyzerRule + Send + Sync>> {
@@ -37,11 +39,14 @@ pub fn default_optimizer_rules() -> Vec<Arc<dyn OptimizerRule + Send + Sync>> {
         vec![Arc::new(DecorrelateLateralProjection::new())];
     let eliminate_cross_join = Arc::new(EliminateCrossJoinSafely::new());
     let eliminate_duplicated_expr = Arc::new(EliminateDuplicatedExprSafely::new());
+    let push_down_filter = Arc::new(PushDownFilterSafely::new());
     custom.extend(rules.into_iter().map(|rule| {
         if rule.name() == eliminate_duplicated_expr.name() {
             eliminate_duplicated_expr.clone() as _
         } else if rule.name() == eliminate_cross_join.name() {
             eliminate_cross_join.clone()
+        } else if rule.name() == push_down_filter.name() {
+            push_down_filter.clone()
         } else {
             rule
         }
diff --git a/crates/sail-logical-optimizer/src/push_down_filter.rs b/crates/sail-logical-optimizer/src/push_down_filter.rs
new file mode 100644
index 0000000..8d6af1e
--- /dev/null
+++ b/crates/sail-logical-optimizer/src/push_down_filter.rs
@@ -0,0 +1,57 @@
+use datafusion::optimizer::push_down_filter::PushDownFilter;
+use datafusion::optimizer::{ApplyOrder, OptimizerConfig, OptimizerRule};
+use datafusion_common::Result;
+use datafusion_common::tree_node::Transformed;
+use datafusion_expr::{Expr, Filter, LogicalPlan};
+
+/// Runs the DataFusion rule, except for filters on aggregates that have an output row
+/// for empty inputs. The rule pushes predicates without columns (such as comparisons with
+/// uncorrelated scalar subqueries) below any aggregate, where they do not remove that row.
+#[derive(Debug, Default)]
+pub struct PushDownFilterSafely {
+    inner: PushDownFilter,
+}
+
+impl PushDownFilterSafely {
+    pub fn new() -> Self {
+        Self::default()
+    }
+}
+
+fn filters_row_for_empty_input(filter: &Filter) -> bool {
+    match filter.input.as_ref() {
+        LogicalPlan::Filter(filter) => filters_row_for_empty_input(filter),
+        LogicalPlan::Aggregate(aggregate) => {
+            // Predicates with columns are not pushed below such aggregates either.
+            aggregate.group_expr.is_empty()
+                || aggregate
+                    .group_expr
+                    .iter()
+                    .any(|x| matches!(x, Expr::GroupingSet(_)))
+        }
+        _ => false,
+    }
+}
+
+impl OptimizerRule for PushDownFilterSafely {
+    fn name(&self) -> &str {
+        self.inner.name()
+    }
+
+    fn apply_order(&self) -> Option<ApplyOrder> {
+        self.inner.apply_order()
+    }
+
+    fn rewrite(
+        &self,
+        plan: LogicalPlan,
+        config: &dyn OptimizerConfig,
+    ) -> Result<Transformed<LogicalPlan>> {
+        if let LogicalPlan::Filter(filter) = &plan
+            && filters_row_for_empty_input(filter)
+        {
+            return Ok(Transformed::no(plan));
+        }
+        self.inner.rewrite(plan, config)
+    }
+}
-- 
2.43.0


From 76ef86ee77b3aec2e9cc297ef5c7daac25ecbe4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:20 +0000
Subject: [PATCH 32/33] fix: resolve qualified join keys and qualified
 wildcards after USING and natural joins

---
 .../src/resolver/expression/attribute.rs      | 29 +++++++----------
 crates/sail-plan/src/resolver/query/join.rs   |  5 +--
 .../sail-plan/src/resolver/query/project.rs   | 32 ++++++++++++-------
 3 files changed, 36 insertions(+), 30 deletions(-)

diff --git a/crates/sail-plan/src/resolver/expression/attribute.rs b/crates/sail-plan/src/resolver/expression/attribute.rs
index 52d5e84..9b5a7b4 100644
--- a/crates/sail-plan/src/resolver/expression/attribute.rs
+++ b/crates/sail-plan/src/resolver/expression/attribute.rs
@@ -169,29 +169,24 @@ impl PlanResolver<'_> {
         schema: &DFSchemaRef,
         state: &mut PlanResolverState,
     ) -> PlanResult<Option<(String, expr::Expr)>> {
-        let [name] = name.parts() else {
-            return Ok(None);
-        };
+        let candidates = Self::generate_qualified_field_candidates(name.parts());
         let mut candidates = schema
             .iter()
-            .filter_map(|(qualifier, field)| {
-                if qualifier.is_some() {
-                    return None;
-                }
+            .flat_map(|(qualifier, field)| {
                 let Ok(info) = state.get_field_info(field.name()) else {
-                    return None;
+                    return vec![];
                 };
                 if !info.is_hidden() {
-                    return None;
-                }
-                if info.matches(name.as_ref(), plan_id) {
-                    Some((
-                        name.as_ref().to_string(),
-                        expr::Expr::Column(Column::new_unqualified(field.name())),
-                    ))
-                } else {
-                    None
+                    return vec![];
                 }
+                candidates
+                    .iter()
+                    .filter(|(q, name)| {
+                        qualifier_matches(q.as_ref(), qualifier)
+                            && info.matches(name.as_ref(), plan_id)
+                    })
+                    .map(|(_, name)| (name.as_ref().to_string(), col((qualifier, field))))
+                    .collect()
             })
             .collect::<Vec<_>>();
         if candidates.len() > 1 {
diff --git a/crates/sail-plan/src/resolver/query/join.rs b/crates/sail-plan/src/resolver/query/join.rs
index 66620c9..d7b4900 100644
--- a/crates/sail-plan/src/resolver/query/join.rs
+++ b/crates/sail-plan/src/resolver/query/join.rs
@@ -201,7 +201,7 @@ impl PlanResolver<'_> {
             NullEquality::NullEqualsNothing,
         )?;
         // Re-register join key columns as hidden fields so that subsequent
-        // attribute resolution (by plan_id) can still find them.
+        // attribute resolution (by plan_id or by qualifier) can still find them.
         let hidden_columns = builder
             .schema()
             .columns()
@@ -215,7 +215,8 @@ impl PlanResolver<'_> {
                     for plan_id in info.plan_ids() {
                         state.register_plan_id_for_field(&field_id, plan_id)?;
                     }
-                    Ok(Expr::Column(col).alias(field_id))
+                    let qualifier = col.relation.clone();
+                    Ok(Expr::Column(col).alias_qualified(qualifier, field_id))
                 } else {
                     Ok(Expr::Column(col))
                 }
diff --git a/crates/sail-plan/src/resolver/query/project.rs b/crates/sail-plan/src/resolver/query/project.rs
index 774b68e..a0dcc41 100644
--- a/crates/sail-plan/src/resolver/query/project.rs
+++ b/crates/sail-plan/src/resolver/query/project.rs
@@ -66,20 +66,23 @@ impl PlanResolver<'_> {
         expr: Vec<NamedExpr>,
         state: &mut PlanResolverState,
     ) -> PlanResult<(LogicalPlan, Vec<NamedExpr>)> {
-        fn to_named_expr(expr: Expr, state: &PlanResolverState) -> PlanResult<Option<NamedExpr>> {
+        fn to_qualified_named_expr(
+            expr: Expr,
+            state: &PlanResolverState,
+        ) -> PlanResult<(bool, NamedExpr)> {
             let Expr::Column(column) = expr else {
                 return Err(PlanError::invalid(
                     "column expected for expanded wildcard expression",
                 ));
             };
             let info = state.get_field_info(column.name())?;
-            if info.is_hidden() {
-                return Ok(None);
-            }
-            Ok(Some(NamedExpr::new(
-                vec![info.name().to_string()],
-                Expr::Column(column),
-            )))
+            let named = NamedExpr::new(vec![info.name().to_string()], Expr::Column(column));
+            Ok((info.is_hidden(), named))
+        }
+
+        fn to_named_expr(expr: Expr, state: &PlanResolverState) -> PlanResult<Option<NamedExpr>> {
+            let (hidden, named) = to_qualified_named_expr(expr, state)?;
+            Ok((!hidden).then_some(named))
         }
 
         fn expand_outer_wildcard(
@@ -151,9 +154,16 @@ impl PlanResolver<'_> {
                         .iter()
                         .any(|(q, _)| q.is_some_and(|q| *q == qualifier));
                     if qualifier_in_input {
-                        for e in expand_qualified_wildcard(&qualifier, schema, Some(&options))? {
-                            projected.extend(to_named_expr(e, state)?)
-                        }
+                        // The hidden fields that have a qualifier are join keys,
+                        // which are accessible through the qualifier and come first.
+                        let (hidden, visible) =
+                            expand_qualified_wildcard(&qualifier, schema, Some(&options))?
+                                .into_iter()
+                                .map(|e| to_qualified_named_expr(e, state))
+                                .collect::<PlanResult<Vec<_>>>()?
+                                .into_iter()
+                                .partition::<Vec<_>, _>(|(hidden, _)| *hidden);
+                        projected.extend(hidden.into_iter().chain(visible).map(|(_, e)| e));
                     }
                     expand_outer_wildcard(Some(&qualifier), schema, state, &mut projected)?;
                 }
-- 
2.43.0


From 7e8c48f60f99265d7aef7bef884ef1cc9b4caa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:55 +0000
Subject: [PATCH 33/33] fix: do not prune null keys by the dynamic filters of
 null-aware joins

---
 .../sail-physical-optimizer/src/filter_pushdown.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/sail-physical-optimizer/src/filter_pushdown.rs b/crates/sail-physical-optimizer/src/filter_pushdown.rs
index 3b7a6b1..c8ec5e8 100644
--- a/crates/sail-physical-optimizer/src/filter_pushdown.rs
+++ b/crates/sail-physical-optimizer/src/filter_pushdown.rs
@@ -9,8 +9,8 @@ use datafusion::physical_plan::ExecutionPlan;
 use datafusion::physical_plan::joins::HashJoinExec;
 
 /// Runs DataFusion post-optimization filter pushdown without dynamic filters from joins
-/// if the plan has a hash join for which null keys are equal. The dynamic filter of
-/// such a join would reject the rows with null keys on the probe side.
+/// if the plan has a hash join for which null keys are equal, or a null-aware one.
+/// The dynamic filter of such a join would reject the rows with null keys on the probe side.
 #[derive(Debug)]
 pub struct NullSafeFilterPushdown {
     datafusion_filter_pushdown: FilterPushdown,
@@ -30,12 +30,12 @@ impl PhysicalOptimizerRule for NullSafeFilterPushdown {
         plan: Arc<dyn ExecutionPlan>,
         config: &ConfigOptions,
     ) -> Result<Arc<dyn ExecutionPlan>> {
-        let has_null_equal_join = plan.exists(|node| {
-            Ok(node
-                .downcast_ref::<HashJoinExec>()
-                .is_some_and(|join| join.null_equality() == NullEquality::NullEqualsNull))
+        let has_join_on_null = plan.exists(|node| {
+            Ok(node.downcast_ref::<HashJoinExec>().is_some_and(|join| {
+                join.null_equality() == NullEquality::NullEqualsNull || join.null_aware
+            }))
         })?;
-        if has_null_equal_join {
+        if has_join_on_null {
             let mut config = config.clone();
             config.optimizer.enable_join_dynamic_filter_pushdown = false;
             self.datafusion_filter_pushdown.optimize(plan, &config)
-- 
2.43.0

