From befa495ad0f730f1cbe88a1b6eb03be7101433dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:20 +0000
Subject: [PATCH 01/18] fix: let an optional selector act on clusters when no
 register matches

---
 src/patch/peripheral.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index cd690b3..5af659a 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -403,9 +403,9 @@ pub(crate) trait RegisterBlockExt: Name {
     fn modify_child(&mut self, rcspec: &str, rcmod: &Hash, bpath: &BlockPath) -> PatchResult {
         let (rcspec, ignore) = rcspec.spec();
         let rtags = self.iter_registers(rcspec).collect::<Vec<_>>();
-        if rtags.is_empty() && !ignore {
+        if rtags.is_empty() {
             let ctags = self.iter_clusters(rcspec).collect::<Vec<_>>();
-            if ctags.is_empty() {
+            if ctags.is_empty() && !ignore {
                 let present = self.present_registers();
                 Err(anyhow!(
                     "Could not find `{bpath}:{rcspec}. Present registers: {present}.`"
@@ -453,9 +453,9 @@ pub(crate) trait RegisterBlockExt: Name {
     ) -> PatchResult {
         let (rspec, ignore) = rcspec.spec();
         let rtags = self.iter_registers(rspec).collect::<Vec<_>>();
-        if rtags.is_empty() && !ignore {
+        if rtags.is_empty() {
             let ctags = self.iter_clusters(rspec).collect::<Vec<_>>();
-            if ctags.is_empty() {
+            if ctags.is_empty() && !ignore {
                 let present = self.present_registers();
                 Err(anyhow!(
                     "Could not find `{bpath}:{rspec}. Present registers: {present}.`"
-- 
2.43.0


From b3d1399dd6d64f7baffbd6ca4159144647e49702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:56 +0000
Subject: [PATCH 02/18] fix: re-point registers derived from a derived register
 to its full source path

---
 src/patch/peripheral.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index 5af659a..cea91b7 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -352,7 +352,7 @@ pub(crate) trait RegisterBlockExt: Name {
                 .regs_mut()
                 .filter(|r| r.derived_from.as_deref() == Some(&rname))
             {
-                r.derived_from = Some(rderive.into());
+                r.derived_from = Some(make_path(rderive, bpath));
             }
         }
         Ok(())
-- 
2.43.0


From f931273295836f570daca14db1154d7f2ecf6fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:42 +0000
Subject: [PATCH 03/18] fix: keep an explicitly given displayName when copying
 a register

---
 src/patch/peripheral.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index cea91b7..89a1532 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -381,9 +381,10 @@ pub(crate) trait RegisterBlockExt: Name {
                 )
             })?
             .clone();
-        let fixes = make_register(rcopy, Some(bpath))?
-            .name(rname.into())
-            .display_name(Some("".into()));
+        let mut fixes = make_register(rcopy, Some(bpath))?.name(rname.into());
+        if rcopy.get_str("displayName")?.is_none() {
+            fixes = fixes.display_name(Some("".into()));
+        }
         // Modifying fields in derived register not implemented
         source.modify_from(fixes, VAL_LVL)?;
         if let Some(ptag) = self.regs_mut().find(|r| r.name == rname) {
-- 
2.43.0


From 38db86420cdb67df33b87eb261c24498e62eb541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:26 +0000
Subject: [PATCH 04/18] fix: refuse to collect elements whose names do not fit
 the array name

---
 src/patch/peripheral.rs | 12 +++++++++++-
 src/patch/register.rs   | 12 +++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index 89a1532..2947b1c 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -1689,7 +1689,17 @@ fn collect_in_array(
     registers[0].name = if let Some(name) = rmod.get_str("name")? {
         name.into()
     } else {
-        format!("{}%s{}", &rspec[..li], &rspec[rspec.len() - ri..])
+        let (prefix, suffix) = (&rspec[..li], &rspec[rspec.len() - ri..]);
+        if let Some(r) = registers
+            .iter()
+            .find(|r| !(r.name.starts_with(prefix) && r.name.ends_with(suffix)))
+        {
+            return Err(anyhow!(
+                "{path}: register {} does not fit in {prefix}%s{suffix} array. Please, specify name",
+                r.name
+            ));
+        }
+        format!("{prefix}%s{suffix}")
     };
 
     if let Some(desc) = rmod.get_str("description")? {
diff --git a/src/patch/register.rs b/src/patch/register.rs
index 170aa86..a6a1a37 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -588,7 +588,17 @@ impl RegisterExt for Register {
             fields[0].name = if let Some(name) = fmod.get_str("name")? {
                 name.into()
             } else {
-                format!("{}%s{}", &fspec[..li], &fspec[fspec.len() - ri..])
+                let (prefix, suffix) = (&fspec[..li], &fspec[fspec.len() - ri..]);
+                if let Some(f) = fields
+                    .iter()
+                    .find(|f| !(f.name.starts_with(prefix) && f.name.ends_with(suffix)))
+                {
+                    return Err(anyhow!(
+                        "{rpath}: field {} does not fit in {prefix}%s{suffix} array. Please, specify name",
+                        f.name
+                    ));
+                }
+                format!("{prefix}%s{suffix}")
             };
             if let Some(desc) = fmod.get_str("description")? {
                 if desc != "_original" {
-- 
2.43.0


From 603819e4970661a7687a5e84cce58792a0656213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:53 +0000
Subject: [PATCH 05/18] fix: check the distances of every member pattern when
 collecting a cluster

---
 src/patch/peripheral.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index 2947b1c..e8cf7b6 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -1753,7 +1753,6 @@ fn collect_in_cluster(
     let mut dim = 0;
     let mut dim_index = Vec::new();
     let mut dim_increment = cmod.get_u32("dimIncrement")?.unwrap_or(0);
-    let mut offsets = Vec::new();
     let mut place = usize::MAX;
     let mut rspecs = Vec::new();
     let single = !cname.contains("%s");
@@ -1812,6 +1811,10 @@ fn collect_in_cluster(
                     "Some of `{rspec}` registers are arrays and some are not"
                 ));
             }
+            let offsets = registers
+                .iter()
+                .map(|r| r.address_offset)
+                .collect::<Vec<_>>();
             let bitmasks = registers
                 .iter()
                 .map(|r| RegisterInfo::get_bitmask(r))
@@ -1844,10 +1847,6 @@ fn collect_in_cluster(
             } else {
                 dim = registers.len();
                 dim_index = new_dim_index;
-                offsets = registers
-                    .iter()
-                    .map(|r| r.address_offset)
-                    .collect::<Vec<_>>();
                 if dim > 1 {
                     dim_increment = offsets[1] - offsets[0];
                 }
-- 
2.43.0


From 9605fdda25769824f424730a1aa2f18e460b610c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:54 +0000
Subject: [PATCH 06/18] fix: remove only the expanded cluster arrays in
 _expand_cluster

---
 src/patch/peripheral.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index e8cf7b6..9dcce3e 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -685,9 +685,8 @@ pub(crate) trait RegisterBlockExt: Name {
         noprefix: Option<bool>,
     ) -> PatchResult {
         let mut clusters_to_expand_with_info = Vec::new();
-        let mut clusters_to_delete = Vec::new();
 
-        let (_, ignore) = cspec.spec();
+        let (cspec, ignore) = cspec.spec();
 
         // some fancy footwork to satisfy the borrow checker gods
         let cluster_data = self.get_cluster_registers(cspec);
@@ -707,6 +706,10 @@ pub(crate) trait RegisterBlockExt: Name {
         }
 
         if let Some(regs) = self.children_mut() {
+            // Only the arrays which are expanded are removed
+            regs.retain(|rc| {
+                !matches!(rc, RegisterCluster::Cluster(Cluster::Array(c, _)) if matchname(&c.name, cspec))
+            });
             for (ctag, dim, cluster_registers) in clusters_to_expand_with_info.clone() {
                 let mut found = false;
                 let cluster_offset = ctag.address_offset;
@@ -754,17 +757,12 @@ pub(crate) trait RegisterBlockExt: Name {
                 }
                 if !found {
                     return Err(anyhow!("No registers found in cluster {:?}", cspec));
-                } else {
-                    clusters_to_delete.push(ctag.name);
                 }
             }
         } else {
             return Err(anyhow!("No registers or clusters"));
         };
 
-        self.delete_cluster(cspec)
-            .with_context(|| format!("Deleting clusters matched to `{cspec}`"))?;
-
         Ok(())
     }
 
-- 
2.43.0


From 643f7aa6ee4ed90ff99052a698796fd3eb2aa7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:29 +0000
Subject: [PATCH 07/18] fix: substitute the index for a bare %s when expanding
 a cluster

---
 src/patch/peripheral.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index 9dcce3e..e11fb72 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -782,7 +782,7 @@ pub(crate) trait RegisterBlockExt: Name {
         let post_index_delim = post_index_delim.unwrap_or("_").to_string();
 
         let has_bracket_delim = ctag.name.find(r#"[%s]"#);
-        let has_nobracket_delim = ctag.name.find(r#"[%s]"#);
+        let has_nobracket_delim = ctag.name.find("%s");
         let prefix = if dim.dim > 1 || matches!(zeroindex, Some(true)) {
             if let Some(true) = noprefix {
                 return Err(anyhow!(
@@ -845,7 +845,16 @@ pub(crate) trait RegisterBlockExt: Name {
                         post_index_delim
                     )
                 }
-                (None, None, _) => {
+                (None, None, Some(_)) => {
+                    format!(
+                        "{}{}",
+                        &ctag
+                            .name
+                            .replace("%s", &format!("{pre_index_delim}{n_dim}")),
+                        post_index_delim
+                    )
+                }
+                (None, None, None) => {
                     format!(
                         "{}{}{}{}",
                         ctag.name, pre_index_delim, n_dim, post_index_delim
-- 
2.43.0


From f65ba29551db5c47dfc823c0ac9f10cb30ea07c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:02 +0000
Subject: [PATCH 08/18] fix: treat a container without elements like one where
 nothing is selected when collecting arrays

---
 src/patch/peripheral.rs | 4 +++-
 src/patch/register.rs   | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index e11fb72..31470e3 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -643,6 +643,8 @@ pub(crate) trait RegisterBlockExt: Name {
     ) -> PatchResult {
         if let Some(regs) = self.children_mut() {
             collect_in_array(regs, bpath, rspec, rmod, config)
+        } else if rspec.spec().1 {
+            Ok(())
         } else {
             Err(anyhow!("No registers or clusters"))
         }
@@ -759,7 +761,7 @@ pub(crate) trait RegisterBlockExt: Name {
                     return Err(anyhow!("No registers found in cluster {:?}", cspec));
                 }
             }
-        } else {
+        } else if !ignore {
             return Err(anyhow!("No registers or clusters"));
         };
 
diff --git a/src/patch/register.rs b/src/patch/register.rs
index a6a1a37..ed1ae2c 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -624,6 +624,8 @@ impl RegisterExt for Register {
             );
             //field.process(fmod, &self.name, true);
             fs.insert(place, field);
+        } else if !fspec.spec().1 {
+            return Err(anyhow!("{rpath}: fields {fspec} not found. No fields."));
         }
         Ok(())
     }
-- 
2.43.0


From b3abac2169d7bfb9cbe96141e055df83b6695efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:02 +0000
Subject: [PATCH 09/18] fix: reject a write constraint list that does not hold
 exactly two numbers

---
 src/patch/mod.rs      | 2 +-
 src/patch/register.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index f7e5fe4..a034c8b 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -573,7 +573,7 @@ fn get_write_constraint(h: &Hash) -> Result<Option<WriteConstraint>> {
                 // Only allow enumerated values
                 Ok(Some(WriteConstraint::UseEnumeratedValues(true)))
             }
-            Yaml::Array(a) => {
+            Yaml::Array(a) if a.len() == 2 => {
                 // Allow a certain range
                 Ok(Some(WriteConstraint::Range(WriteConstraintRange {
                     min: a[0].i64()? as u64,
diff --git a/src/patch/register.rs b/src/patch/register.rs
index ed1ae2c..f32efd0 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -347,7 +347,7 @@ impl RegisterExt for Register {
                             // Only allow enumerated values
                             Some(WriteConstraint::UseEnumeratedValues(true))
                         }
-                        Yaml::Array(a) => {
+                        Yaml::Array(a) if a.len() == 2 => {
                             // Allow a certain range
                             Some(WriteConstraint::Range(WriteConstraintRange {
                                 min: a[0].i64()? as u64,
-- 
2.43.0


From 23d9742b30cb9368b0848d81676b1ae747992d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:27 +0000
Subject: [PATCH 10/18] fix: refuse numbers that do not fit the attribute
 instead of truncating them

---
 src/patch/device.rs   |  4 ++--
 src/patch/mod.rs      | 51 +++++++++++++++++++++----------------------
 src/patch/register.rs |  8 +++----
 src/patch/yaml_ext.rs | 26 ++++++++++++++++++++--
 4 files changed, 55 insertions(+), 34 deletions(-)

diff --git a/src/patch/device.rs b/src/patch/device.rs
index e7a3cb1..2705de7 100644
--- a/src/patch/device.rs
+++ b/src/patch/device.rs
@@ -128,8 +128,8 @@ impl DeviceExt for Device {
                 "headerDefinitionsPrefix" => {
                     self.header_definitions_prefix = Some(val.str()?.into())
                 }
-                "addressUnitBits" => self.address_unit_bits = val.i64()? as u32,
-                "width" => self.width = val.i64()? as u32,
+                "addressUnitBits" => self.address_unit_bits = val.u32()?,
+                "width" => self.width = val.u32()?,
                 "size" | "access" | "protection" | "resetValue" | "resetMask" => {
                     modify_register_properties(&mut self.default_register_properties, key, val)?;
                 }
diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index a034c8b..d580567 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -303,10 +303,10 @@ fn matchsubspec<'a>(name: &str, spec: &'a str) -> Option<&'a str> {
 
 fn modify_register_properties(p: &mut RegisterProperties, f: &str, val: &Yaml) -> PatchResult {
     match f {
-        "size" => p.size = Some(val.i64()? as u32),
+        "size" => p.size = Some(val.u32()?),
         "access" => p.access = Access::parse_str(val.str()?),
-        "resetValue" => p.reset_value = Some(val.i64()? as u64),
-        "resetMask" => p.reset_mask = Some(val.i64()? as u64),
+        "resetValue" => p.reset_value = Some(val.u64()?),
+        "resetMask" => p.reset_mask = Some(val.u64()?),
         "protection" => {}
         _ => {}
     }
@@ -353,10 +353,9 @@ fn make_ev_array(values: &Hash) -> Result<EnumeratedValuesBuilder> {
                     "enumeratedValue {vname} can't have empty value or description"
                 ));
             };
-            let value = value.i64()?;
+            let def = value.i64()? == -1;
+            let value = if def { u64::MAX } else { value.u64()? };
             let description = description.str()?;
-            let def = value == -1;
-            let value = value as u64;
             let ev = EnumeratedValue::builder()
                 .name(vname.into())
                 .description(Some(description.into()));
@@ -454,11 +453,11 @@ fn make_dim_array_index(h: &Hash) -> Result<DimArrayIndex> {
                     "enumeratedValue {vname} can't have empty value or description"
                 ));
             };
-            let value = value.i64()?;
+            let value = value.u64()?;
             let description = description.str()?;
             values.push(
                 EnumeratedValue::builder()
-                    .value(Some(value as u64))
+                    .value(Some(value))
                     .description(Some(description.into()))
                     .build(VAL_LVL)?,
             )
@@ -503,16 +502,16 @@ fn make_field(fadd: &Hash, rpath: Option<&RegisterPath>) -> Result<FieldInfoBuil
         fnew = fnew.name(name.into());
     }
     // NOTE: support only both `msb` and `lsb` passed together
-    if let (Some(msb), Some(lsb)) = (fadd.get_i64("msb")?, fadd.get_i64("lsb")?) {
-        fnew = fnew.bit_range(BitRange::from_msb_lsb(msb as _, lsb as _));
+    if let (Some(msb), Some(lsb)) = (fadd.get_u32("msb")?, fadd.get_u32("lsb")?) {
+        fnew = fnew.bit_range(BitRange::from_msb_lsb(msb, lsb));
     } else if let Some(bit_range) = fadd.get_str("bitRange")?.and_then(BitRange::from_bit_range) {
         fnew = fnew.bit_range(bit_range);
     } else {
-        if let Some(offset) = fadd.get_i64("bitOffset")? {
-            fnew = fnew.bit_offset(offset as u32)
+        if let Some(offset) = fadd.get_u32("bitOffset")? {
+            fnew = fnew.bit_offset(offset)
         }
-        if let Some(width) = fadd.get_i64("bitWidth")? {
-            fnew = fnew.bit_width(width as u32)
+        if let Some(width) = fadd.get_u32("bitWidth")? {
+            fnew = fnew.bit_width(width)
         }
     }
 
@@ -552,8 +551,8 @@ fn make_register(radd: &Hash, path: Option<&BlockPath>) -> Result<RegisterInfoBu
     if let Some(name) = radd.get_str("name")? {
         rnew = rnew.name(name.into());
     }
-    if let Some(address_offset) = radd.get_i64("addressOffset")? {
-        rnew = rnew.address_offset(address_offset as u32);
+    if let Some(address_offset) = radd.get_u32("addressOffset")? {
+        rnew = rnew.address_offset(address_offset);
     }
 
     Ok(rnew)
@@ -576,8 +575,8 @@ fn get_write_constraint(h: &Hash) -> Result<Option<WriteConstraint>> {
             Yaml::Array(a) if a.len() == 2 => {
                 // Allow a certain range
                 Ok(Some(WriteConstraint::Range(WriteConstraintRange {
-                    min: a[0].i64()? as u64,
-                    max: a[1].i64()? as u64,
+                    min: a[0].u64()?,
+                    max: a[1].u64()?,
                 })))
             }
             _ => Err(anyhow!("Unknown writeConstraint type {write_constraint:?}")),
@@ -614,8 +613,8 @@ fn make_cluster(cadd: &Hash, path: Option<&BlockPath>) -> Result<ClusterInfoBuil
     if let Some(name) = cadd.get_str("name")? {
         cnew = cnew.name(name.into());
     }
-    if let Some(address_offset) = cadd.get_i64("addressOffset")? {
-        cnew = cnew.address_offset(address_offset as u32);
+    if let Some(address_offset) = cadd.get_u32("addressOffset")? {
+        cnew = cnew.address_offset(address_offset);
     }
     Ok(cnew)
 }
@@ -625,8 +624,8 @@ fn make_interrupt(iadd: &Hash) -> Result<InterruptBuilder> {
     if let Some(name) = iadd.get_string("name")? {
         int = int.name(name)
     }
-    if let Some(value) = iadd.get_i64("value")? {
-        int = int.value(value as u32)
+    if let Some(value) = iadd.get_u32("value")? {
+        int = int.value(value)
     }
     Ok(int)
 }
@@ -659,8 +658,8 @@ fn make_peripheral(padd: &Hash, modify: bool) -> Result<PeripheralInfoBuilder> {
     if let Some(name) = padd.get_str("name")? {
         pnew = pnew.name(name.into());
     }
-    if let Some(base_address) = padd.get_i64("baseAddress")? {
-        pnew = pnew.base_address(base_address as u64);
+    if let Some(base_address) = padd.get_u64("baseAddress")? {
+        pnew = pnew.base_address(base_address);
     }
 
     if let Some(derived) = padd.get_str("derivedFrom")? {
@@ -728,8 +727,8 @@ fn make_cpu(cmod: &Hash) -> Result<CpuBuilder> {
     if let Some(fpu_present) = cmod.get_bool("fpuPresent")? {
         cpu = cpu.fpu_present(fpu_present);
     }
-    if let Some(nvic_priority_bits) = cmod.get_i64("nvicPrioBits")? {
-        cpu = cpu.nvic_priority_bits(nvic_priority_bits as u32);
+    if let Some(nvic_priority_bits) = cmod.get_u32("nvicPrioBits")? {
+        cpu = cpu.nvic_priority_bits(nvic_priority_bits);
     }
     if let Some(has_vendor_systick) = cmod.get_bool("vendorSystickConfig")? {
         cpu = cpu.has_vendor_systick(has_vendor_systick);
diff --git a/src/patch/register.rs b/src/patch/register.rs
index f32efd0..7897020 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -350,8 +350,8 @@ impl RegisterExt for Register {
                         Yaml::Array(a) if a.len() == 2 => {
                             // Allow a certain range
                             Some(WriteConstraint::Range(WriteConstraintRange {
-                                min: a[0].i64()? as u64,
-                                max: a[1].i64()? as u64,
+                                min: a[0].u64()?,
+                                max: a[1].u64()?,
                             }))
                         }
                         _ => return Err(anyhow!("Unknown writeConstraint type {value:?}")),
@@ -977,8 +977,8 @@ impl RegisterExt for Register {
         let (fspec, ignore) = fspec.spec();
         for ftag in self.iter_fields(fspec) {
             ftag.write_constraint = Some(WriteConstraint::Range(WriteConstraintRange {
-                min: fmod[0].i64()? as u64,
-                max: fmod[1].i64()? as u64,
+                min: fmod[0].u64()?,
+                max: fmod[1].u64()?,
             }));
             set_any = true;
         }
diff --git a/src/patch/yaml_ext.rs b/src/patch/yaml_ext.rs
index db193e5..7745663 100644
--- a/src/patch/yaml_ext.rs
+++ b/src/patch/yaml_ext.rs
@@ -16,6 +16,8 @@ pub enum YamlError {
     NotInt(Yaml),
     #[error("Value is not boolean: {0:?}")]
     NotBool(Yaml),
+    #[error("Value is out of range: {0:?}")]
+    OutOfRange(Yaml),
 }
 
 pub trait AsType {
@@ -24,6 +26,8 @@ pub trait AsType {
     fn vec(&self) -> Result<&Vec<Yaml>, YamlError>;
     fn str(&self) -> Result<&str, YamlError>;
     fn i64(&self) -> Result<i64, YamlError>;
+    fn u64(&self) -> Result<u64, YamlError>;
+    fn u32(&self) -> Result<u32, YamlError>;
     fn bool(&self) -> Result<bool, YamlError>;
 }
 
@@ -47,6 +51,12 @@ impl AsType for Yaml {
     fn i64(&self) -> Result<i64, YamlError> {
         parse_i64(self).ok_or_else(|| YamlError::NotInt(self.clone()))
     }
+    fn u64(&self) -> Result<u64, YamlError> {
+        u64::try_from(self.i64()?).map_err(|_| YamlError::OutOfRange(self.clone()))
+    }
+    fn u32(&self) -> Result<u32, YamlError> {
+        u32::try_from(self.i64()?).map_err(|_| YamlError::OutOfRange(self.clone()))
+    }
     fn bool(&self) -> Result<bool, YamlError> {
         parse_bool(self).ok_or_else(|| YamlError::NotBool(self.clone()))
     }
@@ -172,10 +182,22 @@ where
         }
     }
     fn get_u64(&self, k: &K) -> Result<Option<u64>> {
-        self.get_i64(k).map(|v| v.map(|v| v as u64))
+        match self.get_yaml(k) {
+            None => Ok(None),
+            Some(v) => v
+                .u64()
+                .with_context(|| format!("Under key `{k:?}`"))
+                .map(Some),
+        }
     }
     fn get_u32(&self, k: &K) -> Result<Option<u32>> {
-        self.get_i64(k).map(|v| v.map(|v| v as u32))
+        match self.get_yaml(k) {
+            None => Ok(None),
+            Some(v) => v
+                .u32()
+                .with_context(|| format!("Under key `{k:?}`"))
+                .map(Some),
+        }
     }
     fn get_str(&self, k: &K) -> Result<Option<&str>> {
         match self.get_yaml(k) {
-- 
2.43.0


From 9335e3559ce4427dea0c56316ad542e5037cbc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:32 +0000
Subject: [PATCH 11/18] fix: keep the rest of an included list that repeats the
 including file's string

---
 src/patch/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index d580567..34150ee 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -245,13 +245,13 @@ fn update_dict(parent: &mut Hash, child: &Hash) -> Result<()> {
                         }
                         s if matches!(s, Yaml::String(_)) => match val {
                             Yaml::Array(a) => {
-                                if !a.contains(s) {
-                                    let mut a = a.clone();
-                                    a.insert(0, s.clone());
-                                    e.insert(Yaml::Array(a));
-                                } else {
+                                let mut a = a.clone();
+                                if a.contains(s) {
                                     println!("In {key:?}: dublicate rule {s:?}, ignored");
+                                    a.retain(|x| x != s);
                                 }
+                                a.insert(0, s.clone());
+                                e.insert(Yaml::Array(a));
                             }
                             s2 if matches!(s2, Yaml::String(_)) => {
                                 println!("In {key:?}: conflicting rules {s:?} and {s2:?}, ignored");
-- 
2.43.0


From e42884589f4e0b48d33525197407a00a51b163c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:32 +0000
Subject: [PATCH 12/18] fix: list included files without content as
 dependencies

---
 src/patch/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index 34150ee..a944aac 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -199,13 +199,13 @@ pub fn yaml_includes(parent: &mut Hash) -> Result<Vec<PathBuf>> {
         let mut contents = String::new();
         (&f).read_to_string(&mut contents)?;
         let mut docs = YamlLoader::load_from_str(&contents)?;
+        included.push(path.clone());
         if docs.is_empty() {
             continue;
         }
         let child = docs[0].hash_mut()?;
         let ypath = path.to_str().unwrap().to_yaml();
         child.insert(y_path.clone(), ypath.clone());
-        included.push(path.clone());
 
         // Process any top-level includes in child
         included.extend(yaml_includes(child)?);
-- 
2.43.0


From 45881c7bedd4f79a964cf03b1229203b3bb5ccf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:32 +0000
Subject: [PATCH 13/18] fix: do not restart the gaps at zero after interrupt
 number 4294967295

---
 src/interrupts/interrupt_list.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/interrupts/interrupt_list.rs b/src/interrupts/interrupt_list.rs
index 0af16ae..f0650d2 100644
--- a/src/interrupts/interrupt_list.rs
+++ b/src/interrupts/interrupt_list.rs
@@ -26,9 +26,9 @@ impl InterruptList {
         let mut last_interrupt: i64 = -1;
         for i in &self.ordered_interrupts {
             let curr_interrupt = i.interrupt.value;
-            let required_interrupt = (last_interrupt + 1) as u32;
-            for gap in required_interrupt..curr_interrupt {
-                gaps.push(gap);
+            let required_interrupt = last_interrupt + 1;
+            for gap in required_interrupt..curr_interrupt as i64 {
+                gaps.push(gap as u32);
             }
             last_interrupt = curr_interrupt as i64;
         }
-- 
2.43.0


From 136efeeb755bcebcca8d7d3959bf710a46019675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:32 +0000
Subject: [PATCH 14/18] fix: list the registers of a peripheral derived from a
 derived peripheral

---
 src/mmap/mmap_cli.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/mmap/mmap_cli.rs b/src/mmap/mmap_cli.rs
index 0a0eddd..e60a40b 100644
--- a/src/mmap/mmap_cli.rs
+++ b/src/mmap/mmap_cli.rs
@@ -59,14 +59,18 @@ fn get_periph_registers<'a>(
     match &peripheral.derived_from {
         None => &peripheral.registers,
         Some(father) => {
-            let mut registers = &None;
-            for p in peripheral_list {
-                if &p.name == father {
-                    registers = &p.registers;
-                    break;
+            let mut father = father;
+            // no chain of derivations is longer than the list
+            for _ in peripheral_list {
+                match peripheral_list.iter().find(|p| &p.name == father) {
+                    None => return &None,
+                    Some(p) => match &p.derived_from {
+                        None => return &p.registers,
+                        Some(grandfather) => father = grandfather,
+                    },
                 }
             }
-            registers
+            &None
         }
     }
 }
-- 
2.43.0


From 5a4b4627158fea77b578571d3bb517de0caa1e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 15/18] fix: fail when there are no enumerated values to
 replace

---
 src/patch/register.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/patch/register.rs b/src/patch/register.rs
index 7897020..552b526 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -843,6 +843,12 @@ impl RegisterExt for Register {
                     [_] => f.enumerated_values.push(val),
                     [v1, v2] => {
                         if replace {
+                            if v1.usage != Some(usage) && v2.usage != Some(usage) {
+                                return Err(anyhow!(
+                                    "field {} has no {usage:?} enumeratedValues to replace",
+                                    f.name
+                                ));
+                            }
                             if v1.usage == Some(usage) {
                                 *v1 = val.clone();
                             }
-- 
2.43.0


From 2738b70ba033aa5a1c4495a7817f363f51e073b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 16/18] fix: fail when a derived enumeration is described for a
 field that is not there

---
 src/patch/register.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/patch/register.rs b/src/patch/register.rs
index 552b526..14825f4 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -873,6 +873,16 @@ impl RegisterExt for Register {
 
         let reg_access = self.properties.access;
         if let Some(d) = fmod.get_str("_derivedFrom")? {
+            let (fspec, ignore) = fspec.spec();
+            if self.iter_fields(fspec).next().is_none() {
+                if ignore {
+                    return Ok(());
+                }
+                let present = self.present_fields();
+                return Err(anyhow!(
+                    "Could not find field {rpath}:{fspec}. Present fields: {present}."
+                ));
+            }
             // This is a derived enumeratedValues => Try to find the
             // original definition to extract its <usage>
             let mut derived_enums = self
-- 
2.43.0


From 13c1c575729f9ac236fdac1740cdc2d32e8ce78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 17/18] fix: do not derive an enumeration from itself

---
 src/patch/register.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/patch/register.rs b/src/patch/register.rs
index 14825f4..2b2746d 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -910,7 +910,12 @@ impl RegisterExt for Register {
                         "enumeratedValues with different usage was found: {usage:?} != {orig_usage:?}"
                     ));
                 }
-                if ftag.name == d {
+                if ftag.name == d
+                    || ftag
+                        .enumerated_values
+                        .iter()
+                        .any(|e| e.name.as_deref() == Some(d))
+                {
                     return Err(anyhow!("EnumeratedValues can't be derived from itself"));
                 }
                 set_enum(ftag, evs.clone(), orig_usage, true, access)?;
-- 
2.43.0


From 9580955a75f525ed90a2132e600fd5d18c26b2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:52 +0000
Subject: [PATCH 18/18] fix: a list of other than two numbers described for a
 field must fail

A field description that is a list is a range of allowed values. A list
with a length other than two was skipped without a word.
---
 src/patch/register.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/patch/register.rs b/src/patch/register.rs
index 2b2746d..bffeeeb 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -761,6 +761,9 @@ impl RegisterExt for Register {
                 self.process_field_range(fspec, fmod, rpath)
                     .context("Adding writeConstraint range")?;
             }
+            Yaml::Array(_) => {
+                return Err(anyhow!("`{fspec}`: a range must have exactly two elements"));
+            }
             _ => {}
         }
         Ok(())
-- 
2.43.0

