From 5a22a85d760b60d3255e08bcb909cd658743a68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:22 +0000
Subject: [PATCH 01/23] fix: report _array field spec that matches nothing on a
 register without fields

---
 src/patch/register.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/patch/register.rs b/src/patch/register.rs
index 170aa86..63aa9f3 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -614,6 +614,10 @@ impl RegisterExt for Register {
             );
             //field.process(fmod, &self.name, true);
             fs.insert(place, field);
+        } else if !fspec.spec().1 {
+            return Err(anyhow!(
+                "{rpath}: fields {fspec} not found. Register has no fields"
+            ));
         }
         Ok(())
     }
-- 
2.43.0


From 9e8940969c1d0c85d5208cd5e5aac1534de2d6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:45 +0000
Subject: [PATCH 02/23] fix: apply optional (?~) register specs to clusters
 when only clusters match

---
 src/patch/peripheral.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index cd690b3..5af659a 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -403,9 +403,9 @@ pub(crate) trait RegisterBlockExt: Name {
     fn modify_child(&mut self, rcspec: &str, rcmod: &Hash, bpath: &BlockPath) -> PatchResult {
         let (rcspec, ignore) = rcspec.spec();
         let rtags = self.iter_registers(rcspec).collect::<Vec<_>>();
-        if rtags.is_empty() && !ignore {
+        if rtags.is_empty() {
             let ctags = self.iter_clusters(rcspec).collect::<Vec<_>>();
-            if ctags.is_empty() {
+            if ctags.is_empty() && !ignore {
                 let present = self.present_registers();
                 Err(anyhow!(
                     "Could not find `{bpath}:{rcspec}. Present registers: {present}.`"
@@ -453,9 +453,9 @@ pub(crate) trait RegisterBlockExt: Name {
     ) -> PatchResult {
         let (rspec, ignore) = rcspec.spec();
         let rtags = self.iter_registers(rspec).collect::<Vec<_>>();
-        if rtags.is_empty() && !ignore {
+        if rtags.is_empty() {
             let ctags = self.iter_clusters(rspec).collect::<Vec<_>>();
-            if ctags.is_empty() {
+            if ctags.is_empty() && !ignore {
                 let present = self.present_registers();
                 Err(anyhow!(
                     "Could not find `{bpath}:{rspec}. Present registers: {present}.`"
-- 
2.43.0


From 5d511401c3d760e77dfa4626fcd45f72f7c06ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:06 +0000
Subject: [PATCH 03/23] fix: report or skip unmatched field specs of
 _derivedFrom enumeratedValues

---
 src/patch/register.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/patch/register.rs b/src/patch/register.rs
index 63aa9f3..b61a455 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -858,6 +858,16 @@ impl RegisterExt for Register {
         }
 
         let reg_access = self.properties.access;
+        let (fspec, ignore) = fspec.spec();
+        if self.iter_fields(fspec).next().is_none() {
+            if ignore {
+                return Ok(());
+            }
+            let present = self.present_fields();
+            return Err(anyhow!(
+                "Could not find field {rpath}:{fspec}. Present fields: {present}."
+            ));
+        }
         if let Some(d) = fmod.get_str("_derivedFrom")? {
             // This is a derived enumeratedValues => Try to find the
             // original definition to extract its <usage>
@@ -892,7 +902,6 @@ impl RegisterExt for Register {
                 set_enum(ftag, evs.clone(), orig_usage, true, access)?;
             }
         } else {
-            let (fspec, ignore) = fspec.spec();
             let mut offsets: Vec<_> = Vec::new();
             let mut width_vals = HashSet::new();
             for (i, f) in self.fields().enumerate() {
@@ -901,15 +910,7 @@ impl RegisterExt for Register {
                     width_vals.insert(f.bit_width());
                 }
             }
-            if offsets.is_empty() {
-                if ignore {
-                    return Ok(());
-                }
-                let present = self.present_fields();
-                return Err(anyhow!(
-                    "Could not find field {rpath}:{fspec}. Present fields: {present}."
-                ));
-            } else if width_vals.len() > 1 {
+            if width_vals.len() > 1 {
                 return Err(anyhow!(
                     "{rpath}:{fspec}. Same enumeratedValues are used for different fields."
                 ));
-- 
2.43.0


From a36f51314fe1d7d7eed04c6607f6c88cbf792929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:20 +0000
Subject: [PATCH 04/23] fix: report field specs of read/write action rules that
 match nothing

---
 src/patch/register.rs | 56 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 48 insertions(+), 8 deletions(-)

diff --git a/src/patch/register.rs b/src/patch/register.rs
index b61a455..130b1b7 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -98,10 +98,20 @@ pub trait RegisterExt {
     ) -> PatchResult;
 
     /// Set readAction for field
-    fn set_field_read_action(&mut self, fspec: &str, action: ReadAction);
+    fn set_field_read_action(
+        &mut self,
+        fspec: &str,
+        action: ReadAction,
+        rpath: &RegisterPath,
+    ) -> PatchResult;
 
     /// Set modifiedWriteValues for field
-    fn set_field_modified_write_values(&mut self, fspec: &str, mwv: ModifiedWriteValues);
+    fn set_field_modified_write_values(
+        &mut self,
+        fspec: &str,
+        mwv: ModifiedWriteValues,
+        rpath: &RegisterPath,
+    ) -> PatchResult;
 
     /// Add a writeConstraint range given by field to all fspec in rtag
     fn process_field_range(
@@ -722,7 +732,8 @@ impl RegisterExt for Register {
                                     .context("Adding read-only enumeratedValues")?;
                                 }
                                 if let Some(action) = action {
-                                    self.set_field_read_action(fspec, *action);
+                                    self.set_field_read_action(fspec, *action, rpath)
+                                        .context("Setting readAction")?;
                                 }
                                 break;
                             }
@@ -742,7 +753,8 @@ impl RegisterExt for Register {
                                     .context("Adding write-only enumeratedValues")?;
                                 }
                                 if let Some(mwv) = mwv {
-                                    self.set_field_modified_write_values(fspec, *mwv);
+                                    self.set_field_modified_write_values(fspec, *mwv, rpath)
+                                        .context("Setting modifiedWriteValues")?;
                                 }
                             }
                         }
@@ -758,22 +770,50 @@ impl RegisterExt for Register {
         Ok(())
     }
 
-    fn set_field_read_action(&mut self, fspec: &str, action: ReadAction) {
-        let (fspec, _) = fspec.spec();
+    fn set_field_read_action(
+        &mut self,
+        fspec: &str,
+        action: ReadAction,
+        rpath: &RegisterPath,
+    ) -> PatchResult {
+        let mut set_any = false;
+        let (fspec, ignore) = fspec.spec();
         for ftag in self.iter_fields(fspec) {
             ftag.read_action = Some(action);
+            set_any = true;
+        }
+        if !ignore && !set_any {
+            let present = self.present_fields();
+            return Err(anyhow!(
+                "Could not find field {rpath}:{fspec}. Present fields: {present}.`"
+            ));
         }
+        Ok(())
     }
 
-    fn set_field_modified_write_values(&mut self, fspec: &str, mwv: ModifiedWriteValues) {
-        let (fspec, _) = fspec.spec();
+    fn set_field_modified_write_values(
+        &mut self,
+        fspec: &str,
+        mwv: ModifiedWriteValues,
+        rpath: &RegisterPath,
+    ) -> PatchResult {
+        let mut set_any = false;
+        let (fspec, ignore) = fspec.spec();
         for ftag in self.iter_fields(fspec) {
             ftag.modified_write_values = if mwv == ModifiedWriteValues::Modify {
                 None
             } else {
                 Some(mwv)
             };
+            set_any = true;
         }
+        if !ignore && !set_any {
+            let present = self.present_fields();
+            return Err(anyhow!(
+                "Could not find field {rpath}:{fspec}. Present fields: {present}.`"
+            ));
+        }
+        Ok(())
     }
 
     fn process_field_enum(
-- 
2.43.0


From dd5b276aa534b80344921e627093bec104a14c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:32 +0000
Subject: [PATCH 05/23] fix: report an ill-typed addressBlock or addressBlocks
 instead of ignoring it

---
 src/patch/device.rs | 4 ++--
 src/patch/mod.rs    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/patch/device.rs b/src/patch/device.rs
index e7a3cb1..ef33cca 100644
--- a/src/patch/device.rs
+++ b/src/patch/device.rs
@@ -267,14 +267,14 @@ impl DeviceExt for Device {
                         }
                     }
                 }
-                if let Some(abmod) = pmod.get_hash("addressBlock").ok().flatten() {
+                if let Some(abmod) = pmod.get_hash("addressBlock")? {
                     let v = &mut ptag.address_block;
                     let ab = make_address_block(abmod)?;
                     match v.as_deref_mut() {
                         Some([adb]) => adb.modify_from(ab, VAL_LVL)?,
                         _ => *v = Some(vec![ab.build(VAL_LVL)?]),
                     }
-                } else if let Some(abmod) = pmod.get_vec("addressBlocks").ok().flatten() {
+                } else if let Some(abmod) = pmod.get_vec("addressBlocks")? {
                     ptag.address_block = Some(make_address_blocks(abmod)?);
                 }
             }
diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index f7e5fe4..29cc30b 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -669,9 +669,9 @@ fn make_peripheral(padd: &Hash, modify: bool) -> Result<PeripheralInfoBuilder> {
         Ok(pnew
             .default_register_properties(get_register_properties(padd)?)
             .address_block(if !modify {
-                if let Some(h) = padd.get_hash("addressBlock").ok().flatten() {
+                if let Some(h) = padd.get_hash("addressBlock")? {
                     Some(vec![make_address_block(h)?.build(VAL_LVL)?])
-                } else if let Some(h) = padd.get_vec("addressBlocks").ok().flatten() {
+                } else if let Some(h) = padd.get_vec("addressBlocks")? {
                     Some(make_address_blocks(h)?)
                 } else {
                     None
-- 
2.43.0


From 56c5ba6b11841b1e41af48fb66b837219aba2bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:14 +0000
Subject: [PATCH 06/23] fix: report _expand_cluster options that are not a hash
 instead of ignoring them

---
 src/patch/peripheral.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index 5af659a..76154ae 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -1302,7 +1302,10 @@ impl PeripheralExt for Peripheral {
                 }
                 Yaml::Hash(cspec) => {
                     for (cname, cspec) in cspec {
-                        let cspec = cspec.hash().ok();
+                        let cspec = match cspec {
+                            Yaml::Null => None,
+                            cspec => Some(cspec.hash()?),
+                        };
                         let cname = cname.str()?;
                         let mut preindex = None;
                         let mut postindex = None;
-- 
2.43.0


From 64a7ac4bb41ddfa97f25b5a8f07a88d923f29b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:07 +0000
Subject: [PATCH 07/23] fix: report a rule block that is not a hash instead of
 ignoring it

---
 src/patch/device.rs     | 10 +++++-----
 src/patch/peripheral.rs | 32 ++++++++++++++++----------------
 src/patch/register.rs   |  8 ++++----
 src/patch/yaml_ext.rs   | 11 +++++++++--
 4 files changed, 34 insertions(+), 27 deletions(-)

diff --git a/src/patch/device.rs b/src/patch/device.rs
index ef33cca..1f871c4 100644
--- a/src/patch/device.rs
+++ b/src/patch/device.rs
@@ -91,7 +91,7 @@ impl DeviceExt for Device {
         }
 
         // Handle any copied peripherals
-        for (pname, val) in device.hash_iter("_copy") {
+        for (pname, val) in device.hash_iter("_copy")? {
             let pname = pname.str()?;
             self.copy_peripheral(
                 pname,
@@ -102,7 +102,7 @@ impl DeviceExt for Device {
         }
 
         // Handle any modifications
-        for (key, val) in device.hash_iter("_modify") {
+        for (key, val) in device.hash_iter("_modify")? {
             let key = key.str()?;
             match key {
                 "cpu" => self
@@ -148,21 +148,21 @@ impl DeviceExt for Device {
         }
 
         // Handle any new peripherals (!)
-        for (pname, padd) in device.hash_iter("_add") {
+        for (pname, padd) in device.hash_iter("_add")? {
             let pname = pname.str()?;
             self.add_peripheral(pname, padd.hash()?)
                 .with_context(|| format!("Adding peripheral `{pname}`"))?;
         }
 
         // Handle any derived peripherals
-        for (pname, pderive) in device.hash_iter("_derive") {
+        for (pname, pderive) in device.hash_iter("_derive")? {
             let pname = pname.str()?;
             self.derive_peripheral(pname, pderive)
                 .with_context(|| format!("Deriving peripheral `{pname}` from `{pderive:?}`"))?;
         }
 
         // Handle any rebased peripherals
-        for (pname, pold) in device.hash_iter("_rebase") {
+        for (pname, pold) in device.hash_iter("_rebase")? {
             let pname = pname.str()?;
             let pold = pold.str()?;
             self.rebase_peripheral(pname, pold)
diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index 76154ae..09ea319 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -1104,7 +1104,7 @@ impl PeripheralExt for Peripheral {
         }
 
         // Handle any copied peripherals
-        for (rname, rcopy) in pmod.hash_iter("_copy") {
+        for (rname, rcopy) in pmod.hash_iter("_copy")? {
             let rname = rname.str()?;
             match rname {
                 "_registers" => {
@@ -1152,7 +1152,7 @@ impl PeripheralExt for Peripheral {
         }
 
         // Handle modifications
-        for (rspec, rmod) in pmod.hash_iter("_modify") {
+        for (rspec, rmod) in pmod.hash_iter("_modify")? {
             let rmod = rmod.hash()?;
             match rspec.str()? {
                 "_registers" => {
@@ -1191,7 +1191,7 @@ impl PeripheralExt for Peripheral {
         }
 
         // Handle additions
-        for (rname, radd) in pmod.hash_iter("_add") {
+        for (rname, radd) in pmod.hash_iter("_add")? {
             let radd = radd.hash()?;
             match rname.str()? {
                 "_registers" => {
@@ -1221,7 +1221,7 @@ impl PeripheralExt for Peripheral {
             }
         }
 
-        for (rspec, rderive) in pmod.hash_iter("_derive") {
+        for (rspec, rderive) in pmod.hash_iter("_derive")? {
             let rspec = rspec.str()?;
             match rspec {
                 "_registers" => {
@@ -1260,27 +1260,27 @@ impl PeripheralExt for Peripheral {
         }
 
         // Expand register arrays
-        for (rspec, rmod) in pmod.hash_iter("_expand_array") {
+        for (rspec, rmod) in pmod.hash_iter("_expand_array")? {
             let rspec = rspec.str()?;
             self.expand_array(rspec, rmod.hash()?, config)
                 .with_context(|| format!("During expand of `{rspec}` array"))?;
         }
         // Collect registers in arrays
-        for (rspec, rmod) in pmod.hash_iter("_array") {
+        for (rspec, rmod) in pmod.hash_iter("_array")? {
             let rspec = rspec.str()?;
             self.collect_in_array(rspec, rmod.hash()?, &ppath, config)
                 .with_context(|| format!("Collecting registers matched to `{rspec}` in array"))?;
         }
 
         // Collect registers in clusters
-        for (cname, cmod) in pmod.hash_iter("_cluster") {
+        for (cname, cmod) in pmod.hash_iter("_cluster")? {
             let cname = cname.str()?;
             self.collect_in_cluster(cname, cmod.hash()?, &ppath, config)
                 .with_context(|| format!("Collecting registers in cluster `{cname}`"))?;
         }
 
         // Handle clusters
-        for (cspec, cluster) in pmod.hash_iter("_clusters") {
+        for (cspec, cluster) in pmod.hash_iter("_clusters")? {
             let cspec = cspec.str()?;
             self.process_cluster(cspec, cluster.hash()?, &ppath, config)
                 .with_context(|| format!("According to `{cspec}`"))?;
@@ -1424,7 +1424,7 @@ impl ClusterExt for Cluster {
         let cpath = parent.new_cluster(&self.name);
 
         // Handle any copied peripherals
-        for (rname, rcopy) in cmod.hash_iter("_copy") {
+        for (rname, rcopy) in cmod.hash_iter("_copy")? {
             let rname = rname.str()?;
             match rname {
                 "_registers" => {
@@ -1472,7 +1472,7 @@ impl ClusterExt for Cluster {
         }
 
         // Handle modifications
-        for (rspec, rmod) in cmod.hash_iter("_modify") {
+        for (rspec, rmod) in cmod.hash_iter("_modify")? {
             let rmod = rmod.hash()?;
             match rspec.str()? {
                 "_registers" => {
@@ -1503,7 +1503,7 @@ impl ClusterExt for Cluster {
         }
 
         // Handle additions
-        for (rname, radd) in cmod.hash_iter("_add") {
+        for (rname, radd) in cmod.hash_iter("_add")? {
             let radd = radd.hash()?;
             match rname.str()? {
                 "_registers" => {
@@ -1526,7 +1526,7 @@ impl ClusterExt for Cluster {
             }
         }
 
-        for (rspec, rderive) in cmod.hash_iter("_derive") {
+        for (rspec, rderive) in cmod.hash_iter("_derive")? {
             let rspec = rspec.str()?;
             match rspec {
                 "_registers" => {
@@ -1563,7 +1563,7 @@ impl ClusterExt for Cluster {
         let cpath = parent.new_cluster(&self.name);
 
         // Handle clusters
-        for (cspec, cluster) in cmod.hash_iter("_clusters") {
+        for (cspec, cluster) in cmod.hash_iter("_clusters")? {
             let cspec = cspec.str()?;
             self.process_cluster(cspec, cluster.hash()?, &cpath, config)
                 .with_context(|| format!("According to `{cspec}`"))?;
@@ -1586,21 +1586,21 @@ impl ClusterExt for Cluster {
         let cpath = parent.new_cluster(&self.name);
 
         // Expand register arrays
-        for (rspec, rmod) in cmod.hash_iter("_expand_array") {
+        for (rspec, rmod) in cmod.hash_iter("_expand_array")? {
             let rspec = rspec.str()?;
             self.expand_array(rspec, rmod.hash()?, config)
                 .with_context(|| format!("During expand of `{rspec}` array"))?;
         }
 
         // Collect registers in arrays
-        for (rspec, rmod) in cmod.hash_iter("_array") {
+        for (rspec, rmod) in cmod.hash_iter("_array")? {
             let rspec = rspec.str()?;
             self.collect_in_array(rspec, rmod.hash()?, &cpath, config)
                 .with_context(|| format!("Collecting registers matched to `{rspec}` in array"))?;
         }
 
         // Collect registers in clusters
-        for (cname, incmod) in cmod.hash_iter("_cluster") {
+        for (cname, incmod) in cmod.hash_iter("_cluster")? {
             let cname = cname.str()?;
             self.collect_in_cluster(cname, incmod.hash()?, &cpath, config)
                 .with_context(|| format!("Collecting registers in cluster `{cname}`"))?;
diff --git a/src/patch/register.rs b/src/patch/register.rs
index 130b1b7..1f637a8 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -206,19 +206,19 @@ impl RegisterExt for Register {
         }
 
         // Handle modifications
-        for (fspec, fmod) in rmod.hash_iter("_modify") {
+        for (fspec, fmod) in rmod.hash_iter("_modify")? {
             let fspec = fspec.str()?;
             self.modify_field(fspec, fmod.hash()?, &rpath)
                 .with_context(|| format!("Modifying fields matched to `{fspec}`"))?;
         }
         // Handle additions
-        for (fname, fadd) in rmod.hash_iter("_add") {
+        for (fname, fadd) in rmod.hash_iter("_add")? {
             let fname = fname.str()?;
             self.add_field(fname, fadd.hash()?, &rpath)
                 .with_context(|| format!("Adding field `{fname}`"))?;
         }
         // Handle derives
-        for (fspec, fderive) in rmod.hash_iter("_derive") {
+        for (fspec, fderive) in rmod.hash_iter("_derive")? {
             let fspec = fspec.str()?;
             self.derive_field(fspec, fderive, &rpath)
                 .with_context(|| format!("Deriving field `{fspec}` from `{fderive:?}`"))?;
@@ -283,7 +283,7 @@ impl RegisterExt for Register {
         }
 
         // Handle field arrays
-        for (fspec, fmod) in rmod.hash_iter("_array") {
+        for (fspec, fmod) in rmod.hash_iter("_array")? {
             let fspec = fspec.str()?;
             self.collect_fields_in_array(fspec, fmod.hash()?, &rpath)
                 .with_context(|| format!("Collecting fields matched to `{fspec}` in array"))?;
diff --git a/src/patch/yaml_ext.rs b/src/patch/yaml_ext.rs
index db193e5..6efd649 100644
--- a/src/patch/yaml_ext.rs
+++ b/src/patch/yaml_ext.rs
@@ -198,8 +198,15 @@ where
                 .map(Some),
         }
     }
-    fn hash_iter<'a>(&'a self, k: &K) -> HashIter<'a> {
-        HashIter::new(self.get_yaml(k).and_then(Yaml::as_hash).map(|h| h.iter()))
+    fn hash_iter<'a>(&'a self, k: &K) -> Result<HashIter<'a>> {
+        Ok(HashIter::new(match self.get_yaml(k) {
+            None | Some(Yaml::Null) => None,
+            Some(v) => Some(
+                v.hash()
+                    .with_context(|| format!("Under key `{k:?}`"))?
+                    .iter(),
+            ),
+        }))
     }
     fn get_vec(&self, k: &K) -> Result<Option<&Vec<Yaml>>> {
         match self.get_yaml(k) {
-- 
2.43.0


From c4b9e45740d0b66f6363efb6654eec6a0f73fd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:24 +0000
Subject: [PATCH 08/23] fix: report unknown keywords and malformed bit ranges
 in attribute values instead of ignoring them

---
 src/patch/mod.rs      | 21 ++++++++++++---------
 src/patch/yaml_ext.rs |  5 +++++
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index 29cc30b..445e631 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -304,7 +304,11 @@ fn matchsubspec<'a>(name: &str, spec: &'a str) -> Option<&'a str> {
 fn modify_register_properties(p: &mut RegisterProperties, f: &str, val: &Yaml) -> PatchResult {
     match f {
         "size" => p.size = Some(val.i64()? as u32),
-        "access" => p.access = Access::parse_str(val.str()?),
+        "access" => {
+            let val = val.str()?;
+            p.access =
+                Some(Access::parse_str(val).ok_or_else(|| anyhow!("{f}: invalid value `{val}`"))?)
+        }
         "resetValue" => p.reset_value = Some(val.i64()? as u64),
         "resetMask" => p.reset_mask = Some(val.i64()? as u64),
         "protection" => {}
@@ -316,7 +320,7 @@ fn modify_register_properties(p: &mut RegisterProperties, f: &str, val: &Yaml) -
 fn get_register_properties(h: &Hash) -> Result<RegisterProperties> {
     Ok(RegisterProperties::new()
         .size(h.get_u32("size")?)
-        .access(h.get_str("access")?.and_then(Access::parse_str))
+        .access(h.get_parsed("access", Access::parse_str)?)
         .reset_value(h.get_u64("resetValue")?)
         .reset_mask(h.get_u64("resetMask")?))
 }
@@ -402,7 +406,7 @@ fn make_address_block(h: &Hash) -> Result<AddressBlockBuilder> {
     if let Some(size) = h.get_u32("size")? {
         ab = ab.size(size)
     }
-    if let Some(usage) = h.get_str("usage")?.and_then(AddressBlockUsage::parse_str) {
+    if let Some(usage) = h.get_parsed("usage", AddressBlockUsage::parse_str)? {
         ab = ab.usage(usage)
     }
     Ok(ab)
@@ -491,12 +495,11 @@ fn make_field(fadd: &Hash, rpath: Option<&RegisterPath>) -> Result<FieldInfoBuil
     let mut fnew = FieldInfo::builder()
         .description(opt_interpolate(&rpath, fadd.get_str("description")?))
         .derived_from(opt_interpolate(&rpath, fadd.get_str("derivedFrom")?))
-        .access(fadd.get_str("access")?.and_then(Access::parse_str))
+        .access(fadd.get_parsed("access", Access::parse_str)?)
         .modified_write_values(
-            fadd.get_str("modifiedWriteValues")?
-                .and_then(ModifiedWriteValues::parse_str),
+            fadd.get_parsed("modifiedWriteValues", ModifiedWriteValues::parse_str)?,
         )
-        .read_action(fadd.get_str("readAction")?.and_then(ReadAction::parse_str))
+        .read_action(fadd.get_parsed("readAction", ReadAction::parse_str)?)
         .write_constraint(get_write_constraint(fadd)?);
 
     if let Some(name) = fadd.get_str("name")? {
@@ -505,7 +508,7 @@ fn make_field(fadd: &Hash, rpath: Option<&RegisterPath>) -> Result<FieldInfoBuil
     // NOTE: support only both `msb` and `lsb` passed together
     if let (Some(msb), Some(lsb)) = (fadd.get_i64("msb")?, fadd.get_i64("lsb")?) {
         fnew = fnew.bit_range(BitRange::from_msb_lsb(msb as _, lsb as _));
-    } else if let Some(bit_range) = fadd.get_str("bitRange")?.and_then(BitRange::from_bit_range) {
+    } else if let Some(bit_range) = fadd.get_parsed("bitRange", BitRange::from_bit_range)? {
         fnew = fnew.bit_range(bit_range);
     } else {
         if let Some(offset) = fadd.get_i64("bitOffset")? {
@@ -719,7 +722,7 @@ fn make_cpu(cmod: &Hash) -> Result<CpuBuilder> {
     if let Some(revision) = cmod.get_string("revision")? {
         cpu = cpu.revision(revision);
     }
-    if let Some(endian) = cmod.get_str("endian")?.and_then(Endian::parse_str) {
+    if let Some(endian) = cmod.get_parsed("endian", Endian::parse_str)? {
         cpu = cpu.endian(endian);
     }
     if let Some(mpu_present) = cmod.get_bool("mpuPresent")? {
diff --git a/src/patch/yaml_ext.rs b/src/patch/yaml_ext.rs
index 6efd649..8d9b091 100644
--- a/src/patch/yaml_ext.rs
+++ b/src/patch/yaml_ext.rs
@@ -189,6 +189,11 @@ where
     fn get_string(&self, k: &K) -> Result<Option<String>> {
         self.get_str(k).map(|v| v.map(From::from))
     }
+    fn get_parsed<T>(&self, k: &K, parse: impl Fn(&str) -> Option<T>) -> Result<Option<T>> {
+        self.get_str(k)?
+            .map(|s| parse(s).ok_or_else(|| anyhow!("Under key `{k:?}`: invalid value `{s}`")))
+            .transpose()
+    }
     fn get_hash(&self, k: &K) -> Result<Option<&Hash>> {
         match self.get_yaml(k) {
             None => Ok(None),
-- 
2.43.0


From f20ba9ca0bdf326337e0d4aa10c99b72b43ae236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:34 +0000
Subject: [PATCH 09/23] fix: report ill-formed _merge, _split and
 writeConstraint range rules instead of ignoring them

---
 src/patch/register.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/patch/register.rs b/src/patch/register.rs
index 1f637a8..826bb31 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -244,7 +244,12 @@ impl RegisterExt for Register {
                 self.merge_fields(fspec, None, &rpath)
                     .with_context(|| format!("Merging fields matched to `{fspec}`"))?;
             }
-            _ => {}
+            None | Some(Yaml::Null) => {}
+            _ => {
+                return Err(anyhow!(
+                    "`_merge` requires string value, array of strings or hash"
+                ))
+            }
         }
 
         // Handle splits
@@ -267,7 +272,12 @@ impl RegisterExt for Register {
                 self.split_fields(fspec, &Hash::new(), &rpath)
                     .with_context(|| format!("Splitting fields matched to `{fspec}`"))?;
             }
-            _ => {}
+            None | Some(Yaml::Null) => {}
+            _ => {
+                return Err(anyhow!(
+                    "`_split` requires string value, array of strings or hash"
+                ))
+            }
         }
 
         // Handle fields
@@ -765,6 +775,11 @@ impl RegisterExt for Register {
                 self.process_field_range(fspec, fmod, rpath)
                     .context("Adding writeConstraint range")?;
             }
+            Yaml::Array(_) => {
+                return Err(anyhow!(
+                    "{rpath}: writeConstraint range of {fspec} requires 2 values"
+                ));
+            }
             _ => {}
         }
         Ok(())
-- 
2.43.0


From 3ad6eb60693299f5abc90e7c14142fb57a4a2bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:45 +0000
Subject: [PATCH 10/23] fix: check the address offsets of every register group
 collected into a cluster array

---
 src/patch/peripheral.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index 09ea319..76dda34 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -1745,7 +1745,6 @@ fn collect_in_cluster(
     let mut dim = 0;
     let mut dim_index = Vec::new();
     let mut dim_increment = cmod.get_u32("dimIncrement")?.unwrap_or(0);
-    let mut offsets = Vec::new();
     let mut place = usize::MAX;
     let mut rspecs = Vec::new();
     let single = !cname.contains("%s");
@@ -1821,6 +1820,10 @@ fn collect_in_cluster(
                 })
                 .collect::<Result<Vec<_>, _>>();
             let new_dim_index = new_dim_index?;
+            let offsets = registers
+                .iter()
+                .map(|r| r.address_offset)
+                .collect::<Vec<_>>();
             if let Some(rspec1) = first.as_ref() {
                 let len = registers.len();
                 if dim != len {
@@ -1836,10 +1839,6 @@ fn collect_in_cluster(
             } else {
                 dim = registers.len();
                 dim_index = new_dim_index;
-                offsets = registers
-                    .iter()
-                    .map(|r| r.address_offset)
-                    .collect::<Vec<_>>();
                 if dim > 1 {
                     dim_increment = offsets[1] - offsets[0];
                 }
-- 
2.43.0


From b5696b80cfaf3ebae925a2053d3792d388dcf7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:00 +0000
Subject: [PATCH 11/23] fix: refuse to collect fields of different widths into
 an array

---
 src/patch/register.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/patch/register.rs b/src/patch/register.rs
index 826bb31..f13a6ee 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -605,6 +605,12 @@ impl RegisterExt for Register {
                     "{rpath}: fields cannot be collected into {fspec} array. Different bitOffset increments"
                 ));
             }
+            let width = fields[0].bit_range.width;
+            if !fields.iter().all(|f| f.bit_range.width == width) {
+                return Err(anyhow!(
+                    "{rpath}: fields cannot be collected into {fspec} array. Different bit widths"
+                ));
+            }
             fields[0].name = if let Some(name) = fmod.get_str("name")? {
                 name.into()
             } else {
-- 
2.43.0


From 5cf0ccd9fa0fd53451d4c8258166a670fa20a59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:49 +0000
Subject: [PATCH 12/23] fix: _expand_cluster removes only the cluster arrays it
 expands

---
 src/patch/peripheral.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index 76dda34..82c302b 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -706,6 +706,7 @@ pub(crate) trait RegisterBlockExt: Name {
         }
 
         if let Some(regs) = self.children_mut() {
+            let mut expanded = Vec::new();
             for (ctag, dim, cluster_registers) in clusters_to_expand_with_info.clone() {
                 let mut found = false;
                 let cluster_offset = ctag.address_offset;
@@ -748,7 +749,7 @@ pub(crate) trait RegisterBlockExt: Name {
                             reg.address_offset(),
                             reg.name(),
                         );
-                        regs.push(reg.clone())
+                        expanded.push(reg.clone())
                     }
                 }
                 if !found {
@@ -757,13 +758,15 @@ pub(crate) trait RegisterBlockExt: Name {
                     clusters_to_delete.push(ctag.name);
                 }
             }
+            // only the expanded arrays are replaced, not other clusters matched by the spec
+            regs.retain(|rc| {
+                !matches!(rc, RegisterCluster::Cluster(Cluster::Array(c, _)) if clusters_to_delete.contains(&c.name))
+            });
+            regs.extend(expanded);
         } else {
             return Err(anyhow!("No registers or clusters"));
         };
 
-        self.delete_cluster(cspec)
-            .with_context(|| format!("Deleting clusters matched to `{cspec}`"))?;
-
         Ok(())
     }
 
-- 
2.43.0


From 83e178d698dfd670670748c2b4f34bc6758357d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:08 +0000
Subject: [PATCH 13/23] fix: _expand_cluster indexes cluster names with a bare
 %s

---
 src/patch/peripheral.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index 82c302b..d8743c5 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -786,7 +786,7 @@ pub(crate) trait RegisterBlockExt: Name {
         let post_index_delim = post_index_delim.unwrap_or("_").to_string();
 
         let has_bracket_delim = ctag.name.find(r#"[%s]"#);
-        let has_nobracket_delim = ctag.name.find(r#"[%s]"#);
+        let has_nobracket_delim = ctag.name.find(r#"%s"#);
         let prefix = if dim.dim > 1 || matches!(zeroindex, Some(true)) {
             if let Some(true) = noprefix {
                 return Err(anyhow!(
@@ -849,7 +849,16 @@ pub(crate) trait RegisterBlockExt: Name {
                         post_index_delim
                     )
                 }
-                (None, None, _) => {
+                (None, None, Some(_)) => {
+                    format!(
+                        "{}{}",
+                        &ctag
+                            .name
+                            .replace(r#"%s"#, &format!("{}{}", pre_index_delim, n_dim)),
+                        post_index_delim
+                    )
+                }
+                (None, None, None) => {
                     format!(
                         "{}{}{}{}",
                         ctag.name, pre_index_delim, n_dim, post_index_delim
-- 
2.43.0


From 3fd9cb31169832cad0a8e7f49a4ea6734b6809e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:40 +0000
Subject: [PATCH 14/23] fix: refuse numbers that do not fit a 32-bit attribute
 instead of truncating them

---
 src/patch/device.rs   |  4 ++--
 src/patch/mod.rs      | 30 +++++++++++++++---------------
 src/patch/yaml_ext.rs | 14 +++++++++++++-
 3 files changed, 30 insertions(+), 18 deletions(-)

diff --git a/src/patch/device.rs b/src/patch/device.rs
index 1f871c4..1dfb14b 100644
--- a/src/patch/device.rs
+++ b/src/patch/device.rs
@@ -128,8 +128,8 @@ impl DeviceExt for Device {
                 "headerDefinitionsPrefix" => {
                     self.header_definitions_prefix = Some(val.str()?.into())
                 }
-                "addressUnitBits" => self.address_unit_bits = val.i64()? as u32,
-                "width" => self.width = val.i64()? as u32,
+                "addressUnitBits" => self.address_unit_bits = val.u32()?,
+                "width" => self.width = val.u32()?,
                 "size" | "access" | "protection" | "resetValue" | "resetMask" => {
                     modify_register_properties(&mut self.default_register_properties, key, val)?;
                 }
diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index 445e631..eabf5dc 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -303,7 +303,7 @@ fn matchsubspec<'a>(name: &str, spec: &'a str) -> Option<&'a str> {
 
 fn modify_register_properties(p: &mut RegisterProperties, f: &str, val: &Yaml) -> PatchResult {
     match f {
-        "size" => p.size = Some(val.i64()? as u32),
+        "size" => p.size = Some(val.u32()?),
         "access" => {
             let val = val.str()?;
             p.access =
@@ -506,16 +506,16 @@ fn make_field(fadd: &Hash, rpath: Option<&RegisterPath>) -> Result<FieldInfoBuil
         fnew = fnew.name(name.into());
     }
     // NOTE: support only both `msb` and `lsb` passed together
-    if let (Some(msb), Some(lsb)) = (fadd.get_i64("msb")?, fadd.get_i64("lsb")?) {
-        fnew = fnew.bit_range(BitRange::from_msb_lsb(msb as _, lsb as _));
+    if let (Some(msb), Some(lsb)) = (fadd.get_u32("msb")?, fadd.get_u32("lsb")?) {
+        fnew = fnew.bit_range(BitRange::from_msb_lsb(msb, lsb));
     } else if let Some(bit_range) = fadd.get_parsed("bitRange", BitRange::from_bit_range)? {
         fnew = fnew.bit_range(bit_range);
     } else {
-        if let Some(offset) = fadd.get_i64("bitOffset")? {
-            fnew = fnew.bit_offset(offset as u32)
+        if let Some(offset) = fadd.get_u32("bitOffset")? {
+            fnew = fnew.bit_offset(offset)
         }
-        if let Some(width) = fadd.get_i64("bitWidth")? {
-            fnew = fnew.bit_width(width as u32)
+        if let Some(width) = fadd.get_u32("bitWidth")? {
+            fnew = fnew.bit_width(width)
         }
     }
 
@@ -555,8 +555,8 @@ fn make_register(radd: &Hash, path: Option<&BlockPath>) -> Result<RegisterInfoBu
     if let Some(name) = radd.get_str("name")? {
         rnew = rnew.name(name.into());
     }
-    if let Some(address_offset) = radd.get_i64("addressOffset")? {
-        rnew = rnew.address_offset(address_offset as u32);
+    if let Some(address_offset) = radd.get_u32("addressOffset")? {
+        rnew = rnew.address_offset(address_offset);
     }
 
     Ok(rnew)
@@ -617,8 +617,8 @@ fn make_cluster(cadd: &Hash, path: Option<&BlockPath>) -> Result<ClusterInfoBuil
     if let Some(name) = cadd.get_str("name")? {
         cnew = cnew.name(name.into());
     }
-    if let Some(address_offset) = cadd.get_i64("addressOffset")? {
-        cnew = cnew.address_offset(address_offset as u32);
+    if let Some(address_offset) = cadd.get_u32("addressOffset")? {
+        cnew = cnew.address_offset(address_offset);
     }
     Ok(cnew)
 }
@@ -628,8 +628,8 @@ fn make_interrupt(iadd: &Hash) -> Result<InterruptBuilder> {
     if let Some(name) = iadd.get_string("name")? {
         int = int.name(name)
     }
-    if let Some(value) = iadd.get_i64("value")? {
-        int = int.value(value as u32)
+    if let Some(value) = iadd.get_u32("value")? {
+        int = int.value(value)
     }
     Ok(int)
 }
@@ -731,8 +731,8 @@ fn make_cpu(cmod: &Hash) -> Result<CpuBuilder> {
     if let Some(fpu_present) = cmod.get_bool("fpuPresent")? {
         cpu = cpu.fpu_present(fpu_present);
     }
-    if let Some(nvic_priority_bits) = cmod.get_i64("nvicPrioBits")? {
-        cpu = cpu.nvic_priority_bits(nvic_priority_bits as u32);
+    if let Some(nvic_priority_bits) = cmod.get_u32("nvicPrioBits")? {
+        cpu = cpu.nvic_priority_bits(nvic_priority_bits);
     }
     if let Some(has_vendor_systick) = cmod.get_bool("vendorSystickConfig")? {
         cpu = cpu.has_vendor_systick(has_vendor_systick);
diff --git a/src/patch/yaml_ext.rs b/src/patch/yaml_ext.rs
index 8d9b091..46e0421 100644
--- a/src/patch/yaml_ext.rs
+++ b/src/patch/yaml_ext.rs
@@ -14,6 +14,8 @@ pub enum YamlError {
     NotStr(Yaml),
     #[error("Value is not integer: {0:?}")]
     NotInt(Yaml),
+    #[error("Value does not fit in 32 bits: {0:?}")]
+    NotU32(Yaml),
     #[error("Value is not boolean: {0:?}")]
     NotBool(Yaml),
 }
@@ -24,6 +26,7 @@ pub trait AsType {
     fn vec(&self) -> Result<&Vec<Yaml>, YamlError>;
     fn str(&self) -> Result<&str, YamlError>;
     fn i64(&self) -> Result<i64, YamlError>;
+    fn u32(&self) -> Result<u32, YamlError>;
     fn bool(&self) -> Result<bool, YamlError>;
 }
 
@@ -47,6 +50,9 @@ impl AsType for Yaml {
     fn i64(&self) -> Result<i64, YamlError> {
         parse_i64(self).ok_or_else(|| YamlError::NotInt(self.clone()))
     }
+    fn u32(&self) -> Result<u32, YamlError> {
+        u32::try_from(self.i64()?).map_err(|_| YamlError::NotU32(self.clone()))
+    }
     fn bool(&self) -> Result<bool, YamlError> {
         parse_bool(self).ok_or_else(|| YamlError::NotBool(self.clone()))
     }
@@ -175,7 +181,13 @@ where
         self.get_i64(k).map(|v| v.map(|v| v as u64))
     }
     fn get_u32(&self, k: &K) -> Result<Option<u32>> {
-        self.get_i64(k).map(|v| v.map(|v| v as u32))
+        match self.get_yaml(k) {
+            None => Ok(None),
+            Some(v) => v
+                .u32()
+                .with_context(|| format!("Under key `{k:?}`"))
+                .map(Some),
+        }
     }
     fn get_str(&self, k: &K) -> Result<Option<&str>> {
         match self.get_yaml(k) {
-- 
2.43.0


From 0420521f335fee8cb9f9049da1c8556f1ba47bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:26 +0000
Subject: [PATCH 15/23] fix: list included files without content among the
 dependencies

---
 src/patch/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index eabf5dc..c590b58 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -198,6 +198,7 @@ pub fn yaml_includes(parent: &mut Hash) -> Result<Vec<PathBuf>> {
         let f = File::open(&path)?;
         let mut contents = String::new();
         (&f).read_to_string(&mut contents)?;
+        included.push(path.clone());
         let mut docs = YamlLoader::load_from_str(&contents)?;
         if docs.is_empty() {
             continue;
@@ -205,7 +206,6 @@ pub fn yaml_includes(parent: &mut Hash) -> Result<Vec<PathBuf>> {
         let child = docs[0].hash_mut()?;
         let ypath = path.to_str().unwrap().to_yaml();
         child.insert(y_path.clone(), ypath.clone());
-        included.push(path.clone());
 
         // Process any top-level includes in child
         included.extend(yaml_includes(child)?);
-- 
2.43.0


From 38eba4a8cbafeefc95c4e1a4431e4de1994910ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:05 +0000
Subject: [PATCH 16/23] fix: merge a file included at device level even if a
 peripheral already includes it

---
 src/patch/mod.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index c590b58..cf1d16b 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -164,8 +164,16 @@ fn abspath(frompath: &Path, relpath: &Path) -> Result<PathBuf, std::io::Error> {
         .map(|b| b.as_path().into())
 }
 
-/// Recursively loads any included YAML files.
+/// Recursively loads any included YAML files. Returns all loaded files.
 pub fn yaml_includes(parent: &mut Hash) -> Result<Vec<PathBuf>> {
+    let mut loaded = vec![];
+    merge_includes(parent, &mut loaded)?;
+    Ok(loaded)
+}
+
+/// Recursively merges included YAML files into `parent`. Returns files merged into `parent` itself
+/// and adds all loaded files (peripheral-level ones as well) to `loaded`.
+fn merge_includes(parent: &mut Hash, loaded: &mut Vec<PathBuf>) -> Result<Vec<PathBuf>> {
     let y_path = "_path".to_yaml();
     let mut included = vec![];
     let self_path = PathBuf::from(parent.get(&y_path).unwrap().str()?);
@@ -177,7 +185,7 @@ pub fn yaml_includes(parent: &mut Hash) -> Result<Vec<PathBuf>> {
                 Yaml::Hash(val) if val.contains_key(&"_include".to_yaml()) => {
                     let ypath = self_path.to_str().unwrap().to_yaml();
                     val.insert(y_path.clone(), ypath.clone());
-                    included.extend(yaml_includes(val)?);
+                    merge_includes(val, loaded)?;
                 }
                 _ => {}
             }
@@ -198,6 +206,7 @@ pub fn yaml_includes(parent: &mut Hash) -> Result<Vec<PathBuf>> {
         let f = File::open(&path)?;
         let mut contents = String::new();
         (&f).read_to_string(&mut contents)?;
+        loaded.push(path.clone());
         included.push(path.clone());
         let mut docs = YamlLoader::load_from_str(&contents)?;
         if docs.is_empty() {
@@ -208,7 +217,7 @@ pub fn yaml_includes(parent: &mut Hash) -> Result<Vec<PathBuf>> {
         child.insert(y_path.clone(), ypath.clone());
 
         // Process any top-level includes in child
-        included.extend(yaml_includes(child)?);
+        included.extend(merge_includes(child, loaded)?);
         update_dict(parent, child)?;
     }
     parent.remove(&"_include".to_yaml());
-- 
2.43.0


From 10815ef5938db00ec53c52f17494d20f1f73bffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:14 +0000
Subject: [PATCH 17/23] fix: keep all names when a list is merged into a rule
 that already names one of them

---
 src/patch/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index cf1d16b..a534797 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -260,6 +260,8 @@ fn update_dict(parent: &mut Hash, child: &Hash) -> Result<()> {
                                     e.insert(Yaml::Array(a));
                                 } else {
                                     println!("In {key:?}: dublicate rule {s:?}, ignored");
+                                    let a = a.clone();
+                                    e.insert(Yaml::Array(a));
                                 }
                             }
                             s2 if matches!(s2, Yaml::String(_)) => {
-- 
2.43.0


From 3b9ce7d65bbb2bd2ef6a3176dd18d258d3775dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:57 +0000
Subject: [PATCH 18/23] fix: mmap prints the registers of peripherals derived
 over several steps or with registers of their own

---
 src/mmap/mmap_cli.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/mmap/mmap_cli.rs b/src/mmap/mmap_cli.rs
index 0a0eddd..55a3188 100644
--- a/src/mmap/mmap_cli.rs
+++ b/src/mmap/mmap_cli.rs
@@ -56,19 +56,22 @@ fn get_periph_registers<'a>(
     peripheral: &'a PeripheralInfo,
     peripheral_list: &'a [Peripheral],
 ) -> &'a Option<Vec<RegisterCluster>> {
-    match &peripheral.derived_from {
-        None => &peripheral.registers,
-        Some(father) => {
-            let mut registers = &None;
-            for p in peripheral_list {
-                if &p.name == father {
-                    registers = &p.registers;
-                    break;
-                }
-            }
-            registers
+    let mut peripheral = peripheral;
+    // a derivation chain is at most as long as the list (unless it is cyclic)
+    for _ in 0..=peripheral_list.len() {
+        if peripheral.registers.is_some() {
+            break;
+        }
+        let father = peripheral
+            .derived_from
+            .as_ref()
+            .and_then(|father| peripheral_list.iter().find(|p| &p.name == father));
+        match father {
+            Some(father) => peripheral = father,
+            None => break,
         }
     }
+    &peripheral.registers
 }
 
 fn get_peripheral(peripheral: &PeripheralInfo, mmap: &mut Vec<String>) {
-- 
2.43.0


From a317b5fc4d1f078b7014252171b33ee789420cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:29 +0000
Subject: [PATCH 19/23] fix: apply every read rule of a field, not just one of
 them

---
 src/patch/register.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/patch/register.rs b/src/patch/register.rs
index f13a6ee..2c17fa1 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -751,7 +751,6 @@ impl RegisterExt for Register {
                                     self.set_field_read_action(fspec, *action, rpath)
                                         .context("Setting readAction")?;
                                 }
-                                break;
                             }
                         }
                     }
-- 
2.43.0


From 671616e16d8ddab850a381dc189bd6804c3f924a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:13 +0000
Subject: [PATCH 20/23] fix: redirect registers derived from a derived register
 to the full path

---
 src/patch/peripheral.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index d8743c5..89fe077 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -352,7 +352,7 @@ pub(crate) trait RegisterBlockExt: Name {
                 .regs_mut()
                 .filter(|r| r.derived_from.as_deref() == Some(&rname))
             {
-                r.derived_from = Some(rderive.into());
+                r.derived_from = Some(make_path(rderive, bpath));
             }
         }
         Ok(())
-- 
2.43.0


From df9f31a324a771df7e6641cb73c65edb7a075ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:13 +0000
Subject: [PATCH 21/23] fix: keep the displayName given in a register _copy
 rule

---
 src/patch/peripheral.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index 89fe077..7b6bf2c 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -381,9 +381,10 @@ pub(crate) trait RegisterBlockExt: Name {
                 )
             })?
             .clone();
+        let display_name = rcopy.get_str("displayName")?.unwrap_or("");
         let fixes = make_register(rcopy, Some(bpath))?
             .name(rname.into())
-            .display_name(Some("".into()));
+            .display_name(Some(display_name.into()));
         // Modifying fields in derived register not implemented
         source.modify_from(fixes, VAL_LVL)?;
         if let Some(ptag) = self.regs_mut().find(|r| r.name == rname) {
-- 
2.43.0


From 9822dfc969dbda2a00eb6eda06112866228a4a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:25 +0000
Subject: [PATCH 22/23] fix: keep the shared access of merged fields

---
 src/patch/register.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/patch/register.rs b/src/patch/register.rs
index 2c17fa1..b0010b8 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -524,11 +524,15 @@ impl RegisterExt for Register {
             let mut pos = usize::MAX;
             let mut first = true;
             let mut desc = None;
+            let mut access = None;
             for (i, f) in fields.iter_mut().enumerate() {
                 if names.contains(&f.name) {
                     if first {
                         desc.clone_from(&f.description);
+                        access = f.access;
                         first = false;
+                    } else if f.access != access {
+                        access = None;
                     }
                     bitwidth += f.bit_range.width;
                     bitoffset = bitoffset.min(f.bit_range.offset);
@@ -542,6 +546,7 @@ impl RegisterExt for Register {
                     .name(name)
                     .description(desc)
                     .bit_range(BitRange::from_offset_width(bitoffset, bitwidth))
+                    .access(access)
                     .build(VAL_LVL)?
                     .single(),
             );
-- 
2.43.0


From 97571c3537f7836c2ef31ff950d459c5dec2bfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:59 +0000
Subject: [PATCH 23/23] fix: strip what the pattern matches, not as many
 characters as it is long

---
 src/patch/mod.rs        | 16 ++++++++++
 src/patch/peripheral.rs | 65 ++++++++++-------------------------------
 src/patch/register.rs   | 17 ++++-------
 3 files changed, 37 insertions(+), 61 deletions(-)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index a534797..5116e20 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -312,6 +312,22 @@ fn matchsubspec<'a>(name: &str, spec: &'a str) -> Option<&'a str> {
     None
 }
 
+/// Delete from the beginning of a name the shortest part that the pattern matches
+fn strip_name_start(name: &mut String, glob: &globset::GlobMatcher) {
+    let end = (0..=name.len()).find(|&i| name.is_char_boundary(i) && glob.is_match(&name[..i]));
+    if let Some(end) = end {
+        name.drain(..end);
+    }
+}
+
+/// Delete from the end of a name the longest part that the pattern matches
+fn strip_name_end(name: &mut String, glob: &globset::GlobMatcher) {
+    let start = (0..=name.len()).find(|&i| name.is_char_boundary(i) && glob.is_match(&name[i..]));
+    if let Some(start) = start {
+        name.truncate(start);
+    }
+}
+
 fn modify_register_properties(p: &mut RegisterProperties, f: &str, val: &Yaml) -> PatchResult {
     match f {
         "size" => p.size = Some(val.u32()?),
diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index 7b6bf2c..bcce7c7 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -13,7 +13,8 @@ use super::register::{RegisterExt, RegisterInfoExt};
 use super::yaml_ext::{AsType, GetVal, ToYaml};
 use super::{
     adding_pos, check_offsets, common_description, make_dim_element, matchname, matchsubspec,
-    modify_dim_element, spec_ind, Config, PatchResult, Spec, VAL_LVL,
+    modify_dim_element, spec_ind, strip_name_end, strip_name_start, Config, PatchResult, Spec,
+    VAL_LVL,
 };
 use super::{make_cluster, make_interrupt, make_register};
 
@@ -525,36 +526,23 @@ pub(crate) trait RegisterBlockExt: Name {
 
     /// Delete substring from the beginning of register names inside ptag
     fn strip_start(&mut self, prefix: &str) -> PatchResult {
-        let len = prefix.len();
-        let glob = globset::Glob::new(&(prefix.to_string() + "*"))?.compile_matcher();
+        let glob = globset::Glob::new(prefix)?.compile_matcher();
         for rtag in self.regs_mut() {
-            if glob.is_match(&rtag.name) {
-                rtag.name.drain(..len);
-            }
+            strip_name_start(&mut rtag.name, &glob);
             if let Some(dname) = rtag.display_name.as_mut() {
-                if glob.is_match(dname.as_str()) {
-                    dname.drain(..len);
-                }
+                strip_name_start(dname, &glob);
             }
             if let Some(name) = rtag.alternate_register.as_mut() {
-                if glob.is_match(name.as_str()) {
-                    name.drain(..len);
-                }
+                strip_name_start(name, &glob);
             }
         }
         for ctag in self.clstrs_mut() {
-            if glob.is_match(&ctag.name) {
-                ctag.name.drain(..len);
-            }
+            strip_name_start(&mut ctag.name, &glob);
             if let Some(dname) = ctag.header_struct_name.as_mut() {
-                if glob.is_match(dname.as_str()) {
-                    dname.drain(..len);
-                }
+                strip_name_start(dname, &glob);
             }
             if let Some(name) = ctag.alternate_cluster.as_mut() {
-                if glob.is_match(name.as_str()) {
-                    name.drain(..len);
-                }
+                strip_name_start(name, &glob);
             }
         }
         Ok(())
@@ -562,44 +550,23 @@ pub(crate) trait RegisterBlockExt: Name {
 
     /// Delete substring from the ending of register names inside ptag
     fn strip_end(&mut self, suffix: &str) -> PatchResult {
-        let len = suffix.len();
-        let glob = globset::Glob::new(&("*".to_string() + suffix))
-            .unwrap()
-            .compile_matcher();
+        let glob = globset::Glob::new(suffix)?.compile_matcher();
         for rtag in self.regs_mut() {
-            if glob.is_match(&rtag.name) {
-                let nlen = rtag.name.len();
-                rtag.name.truncate(nlen - len);
-            }
+            strip_name_end(&mut rtag.name, &glob);
             if let Some(dname) = rtag.display_name.as_mut() {
-                if glob.is_match(dname.as_str()) {
-                    let nlen = dname.len();
-                    dname.truncate(nlen - len);
-                }
+                strip_name_end(dname, &glob);
             }
             if let Some(name) = rtag.alternate_register.as_mut() {
-                if glob.is_match(name.as_str()) {
-                    let nlen = name.len();
-                    name.truncate(nlen - len);
-                }
+                strip_name_end(name, &glob);
             }
         }
         for ctag in self.clstrs_mut() {
-            if glob.is_match(&ctag.name) {
-                let nlen = ctag.name.len();
-                ctag.name.truncate(nlen - len);
-            }
+            strip_name_end(&mut ctag.name, &glob);
             if let Some(dname) = ctag.header_struct_name.as_mut() {
-                if glob.is_match(dname.as_str()) {
-                    let nlen = dname.len();
-                    dname.truncate(nlen - len);
-                }
+                strip_name_end(dname, &glob);
             }
             if let Some(name) = ctag.alternate_cluster.as_mut() {
-                if glob.is_match(name.as_str()) {
-                    let nlen = name.len();
-                    name.truncate(nlen - len);
-                }
+                strip_name_end(name, &glob);
             }
         }
         Ok(())
diff --git a/src/patch/register.rs b/src/patch/register.rs
index b0010b8..d2686ed 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -15,7 +15,7 @@ use super::iterators::{MatchIter, Matched};
 use super::yaml_ext::{AsType, GetVal, ToYaml};
 use super::{
     check_offsets, common_description, make_dim_element, matchname, modify_dim_element, spec_ind,
-    Config, PatchResult, Spec, VAL_LVL,
+    strip_name_end, strip_name_start, Config, PatchResult, Spec, VAL_LVL,
 };
 use super::{make_derived_enumerated_values, make_ev_array, make_ev_name, make_field};
 
@@ -303,24 +303,17 @@ impl RegisterExt for Register {
     }
 
     fn strip_start(&mut self, substr: &str) -> PatchResult {
-        let len = substr.len();
-        let glob = globset::Glob::new(&(substr.to_string() + "*"))?.compile_matcher();
+        let glob = globset::Glob::new(substr)?.compile_matcher();
         for ftag in self.fields_mut() {
-            if glob.is_match(&ftag.name) {
-                ftag.name.drain(..len);
-            }
+            strip_name_start(&mut ftag.name, &glob);
         }
         Ok(())
     }
 
     fn strip_end(&mut self, substr: &str) -> PatchResult {
-        let len = substr.len();
-        let glob = globset::Glob::new(&("*".to_string() + substr))?.compile_matcher();
+        let glob = globset::Glob::new(substr)?.compile_matcher();
         for ftag in self.fields_mut() {
-            if glob.is_match(&ftag.name) {
-                let nlen = ftag.name.len();
-                ftag.name.truncate(nlen - len);
-            }
+            strip_name_end(&mut ftag.name, &glob);
         }
         Ok(())
     }
-- 
2.43.0

