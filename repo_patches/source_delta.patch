From c2822e440a3a211018c82aaadf38b334bd0d66d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:45 +0000
Subject: [PATCH 01/38] fix: separate the reported columns by how many are
 reported, not requested

---
 src/run_simulation.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/run_simulation.rs b/src/run_simulation.rs
index 964bc68..b513049 100644
--- a/src/run_simulation.rs
+++ b/src/run_simulation.rs
@@ -195,11 +195,7 @@ where
         .take_values()
         .ok_or("Could not take values from SimulationStateHeader")?;
 
-    let report_len = if model.borrow().outputs.is_empty() {
-        state_header.elements.len()
-    } else {
-        model.borrow().outputs.len()
-    };
+    let report_len = pre_process_data.report_indexes.len();
 
     let mut memory = pre_process_data.model.allocate_memory(&state)?;
 
@@ -293,11 +289,7 @@ where
     let (controller, state) =
         RhaiControlScript::from_file(&model, state, control_file, options.research_mode)?;
 
-    let report_len = if model.outputs.is_empty() {
-        state_header.elements.len()
-    } else {
-        model.outputs.len()
-    };
+    let report_len = pre_process_data.report_indexes.len();
 
     // Write header
     let _u = out
-- 
2.43.0


From 827678c6be73a3f6fd97ea0c154eed23ccba2114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:58 +0000
Subject: [PATCH 02/38] fix: write every byte of the results and report output
 errors

Results were written with Write::write, whose short writes lost data, any
output error (or an interrupted call) aborted the process, and buffered
sinks were never flushed.
---
 src/run_simulation.rs | 76 ++++++++++++++++++-------------------------
 1 file changed, 32 insertions(+), 44 deletions(-)

diff --git a/src/run_simulation.rs b/src/run_simulation.rs
index b513049..e9f8fd8 100644
--- a/src/run_simulation.rs
+++ b/src/run_simulation.rs
@@ -200,25 +200,21 @@ where
     let mut memory = pre_process_data.model.allocate_memory(&state)?;
 
     // Write header
-    let _u = out
-        .write(b"Date,")
-        .expect("Could not write to output file (header => 'Date').");
+    out.write_all(b"Date,")
+        .map_err(|e| format!("Could not write to output file (header => 'Date'): {}", e))?;
     for (index, i) in pre_process_data.report_indexes.iter().enumerate() {
         let s: &String = &pre_process_data.full_header[*i];
         if index < report_len - 1 {
             let s = format!("{s},");
-            let _u = out
-                .write(s.as_bytes())
-                .expect("Could not write to output file (header).");
+            out.write_all(s.as_bytes())
+                .map_err(|e| format!("Could not write to output file (header): {}", e))?;
         } else {
-            let _u = out
-                .write(s.as_bytes())
-                .expect("Could not write to output file (header).");
+            out.write_all(s.as_bytes())
+                .map_err(|e| format!("Could not write to output file (header): {}", e))?;
         }
     }
-    let _u = out
-        .write(b"\n")
-        .expect("Could not write to output file (header newline).");
+    out.write_all(b"\n")
+        .map_err(|e| format!("Could not write to output file (header newline): {}", e))?;
 
     /* ************************************ */
     /* SIMULATE THE WHOLE SIMULATION PERIOD */
@@ -243,9 +239,8 @@ where
 
         // Print all the values in the state
         let ds = format!("{},", date);
-        let _u = out
-            .write(ds.as_bytes())
-            .unwrap_or_else(|_| panic!("Could not write to output file (Date '{}')", date));
+        out.write_all(ds.as_bytes())
+            .map_err(|e| format!("Could not write to output file (Date '{}'): {}", date, e))?;
 
         for (index, i) in pre_process_data.report_indexes.iter().enumerate() {
             let st = if index < report_len - 1 {
@@ -253,16 +248,15 @@ where
             } else {
                 format!("{:.3}", state[*i])
             };
-            let _u = out
-                .write(st.as_bytes())
-                .expect("Could not write to output file (data)");
+            out.write_all(st.as_bytes())
+                .map_err(|e| format!("Could not write to output file (data): {}", e))?;
         }
-        let _u = out
-            .write(b"\n")
-            .expect("Could not write to output file (newline)");
+        out.write_all(b"\n")
+            .map_err(|e| format!("Could not write to output file (newline): {}", e))?;
     }
 
-    Ok(())
+    out.flush()
+        .map_err(|e| format!("Could not write to output file: {}", e))
 }
 
 /// This function drives the simulation, after having parsed and built
@@ -292,25 +286,21 @@ where
     let report_len = pre_process_data.report_indexes.len();
 
     // Write header
-    let _u = out
-        .write(b"Date,")
-        .expect("Could not write to output file (header => 'Date').");
+    out.write_all(b"Date,")
+        .map_err(|e| format!("Could not write to output file (header => 'Date'): {}", e))?;
     for (index, i) in pre_process_data.report_indexes.iter().enumerate() {
         let s: &String = &pre_process_data.full_header[*i];
         if index < report_len - 1 {
             let s = format!("{s},");
-            let _u = out
-                .write(s.as_bytes())
-                .expect("Could not write to output file (header).");
+            out.write_all(s.as_bytes())
+                .map_err(|e| format!("Could not write to output file (header): {}", e))?;
         } else {
-            let _u = out
-                .write(s.as_bytes())
-                .expect("Could not write to output file (header).");
+            out.write_all(s.as_bytes())
+                .map_err(|e| format!("Could not write to output file (header): {}", e))?;
         }
     }
-    let _u = out
-        .write(b"\n")
-        .expect("Could not write to output file (header newline).");
+    out.write_all(b"\n")
+        .map_err(|e| format!("Could not write to output file (header newline): {}", e))?;
 
     /* ************************************ */
     /* SIMULATE THE WHOLE SIMULATION PERIOD */
@@ -339,9 +329,8 @@ where
 
         // Print all the values in the state
         let ds = format!("{},", date);
-        let _u = out
-            .write(ds.as_bytes())
-            .unwrap_or_else(|_| panic!("Could not write to output file (Date '{}')", date));
+        out.write_all(ds.as_bytes())
+            .map_err(|e| format!("Could not write to output file (Date '{}'): {}", date, e))?;
 
         for (index, i) in pre_process_data.report_indexes.iter().enumerate() {
             let st = if index < report_len - 1 {
@@ -349,17 +338,16 @@ where
             } else {
                 format!("{:.3}", state_lock[*i])
             };
-            let _u = out
-                .write(st.as_bytes())
-                .expect("Could not write to output file (data)");
+            out.write_all(st.as_bytes())
+                .map_err(|e| format!("Could not write to output file (data): {}", e))?;
         }
         std::mem::drop(state_lock); // drop mutex
-        let _u = out
-            .write(b"\n")
-            .expect("Could not write to output file (newline)");
+        out.write_all(b"\n")
+            .map_err(|e| format!("Could not write to output file (newline): {}", e))?;
     }
 
-    Ok(())
+    out.flush()
+        .map_err(|e| format!("Could not write to output file: {}", e))
 }
 
 /***********/
-- 
2.43.0


From e2716d006a6268a6dd04d000eae685a5d347b58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:58 +0000
Subject: [PATCH 03/38] fix: interpolate weather after the last record within
 the year gap

Dates after the last record were moved one year ahead, so the interpolation
between the last and the first records extrapolated far beyond them.
---
 weather/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/weather/src/lib.rs b/weather/src/lib.rs
index e77429e..d741fe3 100644
--- a/weather/src/lib.rs
+++ b/weather/src/lib.rs
@@ -116,7 +116,11 @@ impl Weather {
                     let first_date = self.data[0].date;
                     let last_n = last_date.day_of_year();
                     let first_n = first_date.day_of_year() + 365.;
-                    let date_n = date.day_of_year() + 365.;
+                    let mut date_n = date.day_of_year();
+                    if i == 0 {
+                        // `date` is before the first date; i.e., in the following year
+                        date_n += 365.;
+                    }
 
                     let x = (date_n - last_n) / (first_n - last_n);
                     self.data.last().unwrap().interpolate(&self.data[0], x)
-- 
2.43.0


From 7663800b8405175037f8bc55686604e564da37ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:48 +0000
Subject: [PATCH 04/38] fix: end the simulation on the previous day when the
 last record is at midnight

---
 src/run_simulation.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/run_simulation.rs b/src/run_simulation.rs
index e9f8fd8..4f5e6c9 100644
--- a/src/run_simulation.rs
+++ b/src/run_simulation.rs
@@ -20,7 +20,7 @@ SOFTWARE.
 use crate::control_trait::SimpleControl;
 use crate::Float;
 use crate::RhaiControlScript;
-use calendar::Period;
+use calendar::{Date, Period};
 use clap::Parser;
 use communication::{MetaOptions, SimulationModel};
 use model::{Model, SimulationStateHeader};
@@ -126,6 +126,10 @@ fn pre_process(
     let start = weather.data[0].date;
     let mut end = weather.data[weather.data.len() - 1].date;
     end.hour -= 0.1;
+    if end.hour < 0.0 {
+        // The last record is at midnight: end on the previous day
+        end = Date::from_day_of_year((end.day_of_year() + 365.) % 365.);
+    }
 
     let sim_period = Period::new(start, end, dt);
 
-- 
2.43.0


From a2f19916f91bc1765ddf6282ab9926da1384baf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:52 +0000
Subject: [PATCH 05/38] fix: show progress on the standard error so that
 results do not mix or deadlock with it

---
 utils/src/progress_bar.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/utils/src/progress_bar.rs b/utils/src/progress_bar.rs
index 2f97585..30cc898 100644
--- a/utils/src/progress_bar.rs
+++ b/utils/src/progress_bar.rs
@@ -1,4 +1,3 @@
-use std::io::Write;
 use std::sync::atomic::AtomicUsize;
 #[cfg(not(feature = "wasm"))]
 use std::time::Instant;
@@ -62,15 +61,16 @@ impl ProgressBar {
             0
         };
         let empty = " ".repeat(n_empty);
-        print!(
+        // The standard output is for results (and might be locked by whoever
+        // is writing them).
+        eprint!(
             "\r    {} [{}{}] {:.2}%",
             self.title, filled, empty, progress
         );
-        std::io::stdout().flush().unwrap();
     }
 
     pub fn done(&self) {
         #[cfg(not(feature = "wasm"))]
-        println!("\nDone after {} seconds", self.start.elapsed().as_secs());
+        eprintln!("\nDone after {} seconds", self.start.elapsed().as_secs());
     }
 }
-- 
2.43.0


From f8bbf5243a3b5b6e6181c3d32ebaf3f98bc5d207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:26 +0000
Subject: [PATCH 06/38] fix: trace the sampled directions when calculating view
 factors

---
 light/src/solar_surface.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/light/src/solar_surface.rs b/light/src/solar_surface.rs
index 2a400e7..f01903d 100644
--- a/light/src/solar_surface.rs
+++ b/light/src/solar_surface.rs
@@ -307,6 +307,7 @@ impl SolarSurface {
 
         let mut ground = 0.0;
         let mut sky = 0.0;
+        let mut obstructed = 0.0;
 
         let n_samples = 10000;
         let mut node_aux = [0; 32];
@@ -319,12 +320,19 @@ impl SolarSurface {
                 let u = rng.gen();
                 let dir = rendering::samplers::uniform_sample_tilted_hemisphere(u, e1, e2, normal);
 
-                if scene.cast_ray(*ray, &mut node_aux).is_none() {
+                let sample_ray = Ray3D {
+                    origin: ray.origin,
+                    direction: dir,
+                };
+                if scene.cast_ray(sample_ray, &mut node_aux).is_none() {
                     if dir.z > 0.0 {
                         sky += 1.0;
                     } else {
                         ground += 1.;
                     }
+                } else {
+                    // Other objects are assumed to be at air temperature
+                    obstructed += 1.;
                 }
             }
         }
@@ -332,9 +340,10 @@ impl SolarSurface {
         let n = n_samples as Float * rays.len() as Float;
         ground /= n;
         sky /= n;
+        obstructed /= n;
 
         let beta = sky.sqrt();
-        let air = sky * (1. - beta);
+        let air = obstructed + sky * (1. - beta);
         sky *= beta;
 
         Ok(IRViewFactorSet { sky, ground, air })
-- 
2.43.0


From 75e29adc97ece3f92f5418a7f86e62053c700d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:07 +0000
Subject: [PATCH 07/38] fix: do not loop forever when shadow rays miss the
 light

---
 rendering/src/ray_tracer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rendering/src/ray_tracer.rs b/rendering/src/ray_tracer.rs
index 266a9b5..8146f0c 100644
--- a/rendering/src/ray_tracer.rs
+++ b/rendering/src/ray_tracer.rs
@@ -233,8 +233,7 @@ impl RayTracer {
 
         let n_shadow_samples = n as Float;
         if let Some((light, p_light)) = scene.sample_light_uniform(rng) {
-            let mut i = 0;
-            while i < n {
+            for _ in 0..n {
                 let wi = if n > 1 {
                     light.primitive.sample_direction(rng, intersection_pt)
                 } else {
@@ -246,10 +245,11 @@ impl RayTracer {
                     direction: wi,
                 };
 
+                // A ray that misses the light (e.g., it is coplanar with it) counts
+                // as a sample without light
                 if let Some((light_colour, light_pdf)) =
                     intersect_light(scene, light, shadow_ray, node_aux)
                 {
-                    i += 1;
                     if light_pdf < 1e-18 {
                         // The light is obstructed... don't add light, but count it.
                         continue;
-- 
2.43.0


From 65d77e28a8d1fde4a5293583cd8bb43f3fb73bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:18 +0000
Subject: [PATCH 08/38] fix: store optical data completely or not at all

---
 light/src/solar_model.rs | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/light/src/solar_model.rs b/light/src/solar_model.rs
index 90d8727..b0d0a44 100644
--- a/light/src/solar_model.rs
+++ b/light/src/solar_model.rs
@@ -28,6 +28,7 @@ use std::borrow::Borrow;
 use std::fs::File;
 use std::io::Write;
 use std::path::Path;
+use std::sync::atomic::{AtomicUsize, Ordering};
 use weather::{CurrentWeather, WeatherTrait};
 use weather::{PerezSky, SkyUnits, Solar};
 
@@ -59,6 +60,29 @@ pub struct SolarModel {
 }
 
 impl SolarModel {
+    /// Stores the optical data in such a way that the file in `path_str` is
+    /// either complete or does not exist, even if writing is interrupted
+    fn store_optical_info(path_str: &str, data: &str) -> Result<(), String> {
+        static COUNT: AtomicUsize = AtomicUsize::new(0);
+        let temp = format!(
+            "{}.{}-{}.tmp",
+            path_str,
+            std::process::id(),
+            COUNT.fetch_add(1, Ordering::Relaxed)
+        );
+        let write = || -> std::io::Result<()> {
+            let mut file = File::create(&temp)?;
+            file.write_all(data.as_bytes())?;
+            file.write_all(b"\n")?;
+            file.sync_all()?;
+            std::fs::rename(&temp, path_str)
+        };
+        write().map_err(|e| {
+            let _ = std::fs::remove_file(&temp);
+            format!("Unable to store optical_info in file '{}': {}", path_str, e)
+        })
+    }
+
     /// This function makes the IR heat transfer Zero... we will try to fix this soon enough,
     /// just not now
     fn update_ir_radiation(
@@ -380,13 +404,7 @@ impl SimulationModel for SolarModel {
                     Ok(v) => v,
                     Err(e) => return Err(format!("{}", e)),
                 };
-                let mut file = match File::create(path) {
-                    Ok(v) => v,
-                    Err(e) => return Err(format!("{}", e)),
-                };
-                if let Err(e) = writeln!(&mut file, "{}", s) {
-                    return Err(format!("{}", e));
-                }
+                Self::store_optical_info(path_str, &s.to_string())?;
                 info
             }
         } else {
-- 
2.43.0


From cb3de1da72926accc6db318e060cb3c8b3b25653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:53 +0000
Subject: [PATCH 09/38] fix: report stored optical data that does not
 correspond to the model

---
 light/src/solar_model.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/light/src/solar_model.rs b/light/src/solar_model.rs
index b0d0a44..1176b1e 100644
--- a/light/src/solar_model.rs
+++ b/light/src/solar_model.rs
@@ -395,6 +395,22 @@ impl SimulationModel for SolarModel {
                         ))
                     }
                 };
+                let n_surfaces = model.surfaces.len();
+                let n_fenestrations = model.fenestrations.len();
+                if info.front_surfaces_view_factors.len() != n_surfaces
+                    || info.back_surfaces_view_factors.len() != n_surfaces
+                    || info.front_fenestrations_view_factors.len() != n_fenestrations
+                    || info.back_fenestrations_view_factors.len() != n_fenestrations
+                    || info.front_surfaces_dc.size().0 != n_surfaces
+                    || info.back_surfaces_dc.size().0 != n_surfaces
+                    || info.front_fenestrations_dc.size().0 != n_fenestrations
+                    || info.back_fenestrations_dc.size().0 != n_fenestrations
+                {
+                    return Err(format!(
+                        "The optical_info in file '{}' does not correspond to this model",
+                        path_str
+                    ));
+                }
 
                 info
             } else {
-- 
2.43.0


From f67f8ae7b5de8184f4393a23f6533d8ade51f595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:20 +0000
Subject: [PATCH 10/38] fix: reject image files that do not have all their
 pixels

---
 rendering/src/image.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/rendering/src/image.rs b/rendering/src/image.rs
index 50fdf10..7a76ede 100644
--- a/rendering/src/image.rs
+++ b/rendering/src/image.rs
@@ -272,6 +272,16 @@ impl ImageBuffer {
         let height = height.ok_or("no height")?;
 
         // Read body
+        let expected = width.checked_mul(height).and_then(|n| n.checked_mul(4));
+        if expected != Some(content.len()) {
+            return Err(format!(
+                "Image file '{}' should have {}x{} pixels of 4 bytes each... found {} bytes",
+                filename,
+                width,
+                height,
+                content.len()
+            ));
+        }
         let pixels = content
             .chunks_exact(4)
             .map(|x| {
-- 
2.43.0


From 7aad366ebd880f0f2a6e56c0c77c5420d123ad6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:20 +0000
Subject: [PATCH 11/38] fix: report errors when writing false colour images

---
 rendering/src/image.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/rendering/src/image.rs b/rendering/src/image.rs
index 7a76ede..977049f 100644
--- a/rendering/src/image.rs
+++ b/rendering/src/image.rs
@@ -298,6 +298,15 @@ impl ImageBuffer {
         })
     } // end of from_file()
 
+    /// Saves data (3 bytes per pixel) as a JPEG file, reporting any error when writing it
+    fn save_jpeg(&self, data: &[u8], outfile: &Path) -> Result<(), String> {
+        let mut jpeg: Vec<u8> = Vec::new();
+        Encoder::new(&mut jpeg, 100)
+            .encode(data, self.width as u16, self.height as u16, ColorType::Rgb)
+            .map_err(|e| e.to_string())?;
+        std::fs::write(outfile, jpeg).map_err(|e| e.to_string())
+    }
+
     /// Creates a new version of an image, but in (log10) falsecolour
     pub fn save_log_falsecolour(
         &self,
@@ -340,12 +349,7 @@ impl ImageBuffer {
             data.push((s[2] * 256.).round() as u8);
         });
 
-        let encoder = Encoder::new_file(outfile, 100).map_err(|e| e.to_string())?;
-        encoder
-            .encode(&data, self.width as u16, self.height as u16, ColorType::Rgb)
-            .map_err(|e| e.to_string())?;
-
-        Ok(())
+        self.save_jpeg(&data, outfile)
     }
 
     /// Creates a new version of an image, but in (linear) falsecolour
@@ -402,12 +406,7 @@ impl ImageBuffer {
             data.push((s[2] * 256.).round() as u8);
         });
 
-        let encoder = Encoder::new_file(outfile, 100).map_err(|e| e.to_string())?;
-        encoder
-            .encode(&data, self.width as u16, self.height as u16, ColorType::Rgb)
-            .map_err(|e| e.to_string())?;
-
-        Ok(())
+        self.save_jpeg(&data, outfile)
     }
 }
 
-- 
2.43.0


From 52b3f9682dd25be28ea70b630854423534ce58b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:52 +0000
Subject: [PATCH 12/38] fix: reject matrix files that do not have all their
 rows

---
 rendering/src/colour_matrix.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/rendering/src/colour_matrix.rs b/rendering/src/colour_matrix.rs
index 03f34f7..cdaeb23 100644
--- a/rendering/src/colour_matrix.rs
+++ b/rendering/src/colour_matrix.rs
@@ -209,6 +209,13 @@ pub fn read_colour_matrix(filename: &Path) -> Result<ColourMatrix, String> {
     }
     let nrows = nrows.ok_or("Number of rows was not found")?;
     let ncols = ncols.ok_or("Number of columns was not found")?;
+    let n_lines = content.lines().skip(header_lines).count();
+    if n_lines != nrows {
+        return Err(format!(
+            "Expecting {} rows in matrix in file '{}'... found {}",
+            nrows, filename, n_lines
+        ));
+    }
     let mut matrix = ColourMatrix::new(Spectrum::BLACK, nrows, ncols);
 
     // Read content.
@@ -368,6 +375,13 @@ pub fn read_matrix(filename: &Path) -> Result<Matrix, String> {
     }
     let nrows = nrows.ok_or("Number of rows was not found")?;
     let ncols = ncols.ok_or("Number of columns was not found")?;
+    let n_lines = content.lines().skip(header_lines).count();
+    if n_lines != nrows {
+        return Err(format!(
+            "Expecting {} rows in matrix in file '{}'... found {}",
+            nrows, filename, n_lines
+        ));
+    }
     let mut matrix = Matrix::new(0.0, nrows, ncols);
 
     // Read content.
-- 
2.43.0


From e0f615d73565a9b25c5dba5c25c10a50e574443a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:15 +0000
Subject: [PATCH 13/38] fix: read the wind direction of EPW files instead of
 always using 360 degrees

---
 weather/src/epw/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weather/src/epw/scanner.rs b/weather/src/epw/scanner.rs
index 33fffb2..0fcaac3 100644
--- a/weather/src/epw/scanner.rs
+++ b/weather/src/epw/scanner.rs
@@ -271,7 +271,7 @@ impl<'a> EPWScanner<'a> {
                 direct_normal_illuminance: EPWScanner::scan_number(self.scan_element())?,
                 diffuse_horizontal_illuminance: EPWScanner::scan_number(self.scan_element())?,
                 zenith_luminance: EPWScanner::scan_number(self.scan_element())?,
-                wind_direction: EPWScanner::scan_number(self.scan_element())?.max(360.), //Missing value is 999
+                wind_direction: EPWScanner::scan_number(self.scan_element())?.min(360.), //Missing value is 999
                 wind_speed: EPWScanner::scan_number(self.scan_element())?,
                 total_sky_cover: EPWScanner::scan_number(self.scan_element())?,
                 opaque_sky_cover: EPWScanner::scan_number(self.scan_element())?,
-- 
2.43.0


From a3e2901375bb980dcef115adc228d0474c2a907b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:15 +0000
Subject: [PATCH 14/38] fix: use the wind direction in radians, as the weather
 gives it

---
 heat/src/heat_model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heat/src/heat_model.rs b/heat/src/heat_model.rs
index b4a4de0..e21736f 100644
--- a/heat/src/heat_model.rs
+++ b/heat/src/heat_model.rs
@@ -416,7 +416,7 @@ impl SimulationModel for ThermalModel {
             // advance in time
             date.add_seconds(self.dt);
             let current_weather = weather.get_weather_data(date);
-            let wind_direction = current_weather.wind_direction.to_radians();
+            let wind_direction = current_weather.wind_direction;
             let wind_speed = current_weather.wind_speed;
 
             let t_out = current_weather.dry_bulb_temperature;
-- 
2.43.0


From 57e06447836ddcd2593e7bcde0ac3f504c600e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:28 +0000
Subject: [PATCH 15/38] fix: end periods that finish within the step that
 crosses new year

---
 calendar/src/period.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/calendar/src/period.rs b/calendar/src/period.rs
index a81dcb3..ffe1dbd 100644
--- a/calendar/src/period.rs
+++ b/calendar/src/period.rs
@@ -138,6 +138,10 @@ impl Iterator for Period {
         if (crossed_ny || crossed_end) && (!crossed_ny || !self.goes_through_new_year) {
             return None;
         }
+        // The step that crosses new year might also go beyond the end
+        if crossed_ny && new > self.end {
+            return None;
+        }
         self.current = new;
         // Some(old)
         Some(self.current)
-- 
2.43.0


From aa869a4071f97de7c03b82630bd03758dc5e441b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:41 +0000
Subject: [PATCH 16/38] fix: report numbers that cannot be read in EPW files
 instead of panicking

---
 weather/src/epw/scanner.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/weather/src/epw/scanner.rs b/weather/src/epw/scanner.rs
index 0fcaac3..71ce40c 100644
--- a/weather/src/epw/scanner.rs
+++ b/weather/src/epw/scanner.rs
@@ -118,7 +118,7 @@ impl<'a> EPWScanner<'a> {
 
         // Ignore the \r thing that I hate
         let mut end = self.current;
-        if self.src[end - 1] == b'\r' {
+        if end > 0 && self.src[end - 1] == b'\r' {
             end -= 1;
         }
         let (ini, fin) = (self.start, end);
@@ -153,14 +153,8 @@ impl<'a> EPWScanner<'a> {
     /// Scans an element and transforms it into a number
     fn scan_number(slice: Option<&[u8]>) -> Result<Float, String> {
         if let Ok(v) = EPWScanner::scan_string(slice) {
-            let the_v = match v.parse::<Float>() {
-                Ok(v) => v,
-                Err(msg) => {
-                    panic!("{}", msg);
-                }
-            };
-
-            Ok(the_v)
+            v.parse::<Float>()
+                .map_err(|e| format!("Could not scan number '{}'... {}", v, e))
         } else {
             Err("Could not scan number... scan_string() return error".to_string())
         }
@@ -225,12 +219,12 @@ impl<'a> EPWScanner<'a> {
     fn parse_data_periods(&mut self, epw: &mut EPWWeather) -> Result<(), String> {
         let n = EPWScanner::scan_number(self.scan_element())? as usize;
         if n != 1 {
-            panic!("Only one data period per EPW file is allowed!");
+            return Err("Only one data period per EPW file is allowed!".to_string());
         }
 
         let n_records_per_hour = EPWScanner::scan_number(self.scan_element())? as usize;
         if n_records_per_hour != 1 {
-            panic!("Only one record per hour is allowed in EPW file!");
+            return Err("Only one record per hour is allowed in EPW file!".to_string());
         }
 
         let _data_period_name = EPWScanner::scan_string(self.scan_element())?;
-- 
2.43.0


From 5b318e9e9b1a6a8e57bff89a0ec6b7fa3c1be38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:41 +0000
Subject: [PATCH 17/38] fix: report weather files without data instead of
 panicking

---
 src/run_simulation.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/run_simulation.rs b/src/run_simulation.rs
index 4f5e6c9..bd63b22 100644
--- a/src/run_simulation.rs
+++ b/src/run_simulation.rs
@@ -123,6 +123,10 @@ fn pre_process(
         }
     };
 
+    if weather.data.is_empty() {
+        return Err("The weather file has no data".to_string());
+    }
+
     let start = weather.data[0].date;
     let mut end = weather.data[weather.data.len() - 1].date;
     end.hour -= 0.1;
-- 
2.43.0


From 17774a82d13901b3948b8095091ea5865ca1b55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:41 +0000
Subject: [PATCH 18/38] fix: report incomplete or unknown blocks in SPL files
 instead of hanging or ignoring them

---
 model/src/scanner.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/model/src/scanner.rs b/model/src/scanner.rs
index 842e03d..433dcc9 100644
--- a/model/src/scanner.rs
+++ b/model/src/scanner.rs
@@ -228,10 +228,18 @@ impl<'a> SimpleScanner<'a> {
             // Scan identifier
             let (ini, fin) = self.identifier()?;
             let ident = &self.source[ini..fin];
+            if ident.is_empty() {
+                let errmsg = Self::make_error_msg("Expecting an identifier", self.line);
+                return Err(errmsg);
+            }
 
             // Skip whitespaces
             self.skip_white_space()?;
             self.update_start_index();
+            if self.finished {
+                let errmsg = Self::make_error_msg("Unexpected End of File", self.line);
+                return Err(errmsg);
+            }
 
             // Scan Object
             let (ini, fin) = self.object()?;
@@ -271,6 +279,14 @@ impl<'a> SimpleScanner<'a> {
             "SolarOptions",
         ];
 
+        for (ident, objects) in data.iter() {
+            if !read_order.contains(&ident.as_str()) {
+                let errmsg =
+                    Self::make_error_msg(format!("unknown identifier {}", ident), objects[0].1);
+                return Err(errmsg);
+            }
+        }
+
         for ident in read_order {
             if !data.contains_key(ident) {
                 continue;
-- 
2.43.0


From b84924e5b41e4c45635761d5a2f5cec426ad3462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:38 +0000
Subject: [PATCH 19/38] fix: keep the solar options when writing SPL files

---
 model/src/model.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/model/src/model.rs b/model/src/model.rs
index 7c7d59a..3b3cf81 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -136,6 +136,10 @@ impl std::fmt::Display for Model {
             write!(f, "SiteDetails {}", s)?;
         }
 
+        if let Some(s) = self.solar_options.as_ref() {
+            write!(f, "SolarOptions {}", s)?;
+        }
+
         for b in self.substances.iter() {
             write!(f, "Substance {}", b)?;
         }
-- 
2.43.0


From fa727990c2b35347ba0bf30b2ebd5674a91d72ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:15 +0000
Subject: [PATCH 20/38] fix: connect holes to their polygon through the right
 vertices

---
 geometry/src/polygon3d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/src/polygon3d.rs b/geometry/src/polygon3d.rs
index 8dba7e4..dac68b7 100644
--- a/geometry/src/polygon3d.rs
+++ b/geometry/src/polygon3d.rs
@@ -345,7 +345,7 @@ impl Polygon3D {
                         let vertex_to_add = if outer_normal.is_same_direction(inner_normal) {
                             // If both in the same direction, then we need to
                             // add the interior in reverse.
-                            (inner_vertex_id as i32 - j as i32) as usize % n_inner_loop_vertices
+                            (inner_vertex_id + n_inner_loop_vertices - j) % n_inner_loop_vertices
                         } else {
                             (inner_vertex_id as i32 + j as i32) as usize % n_inner_loop_vertices
                         };
-- 
2.43.0


From 88b5c819ba05a4f056d261899be54dae74e8ad3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:15 +0000
Subject: [PATCH 21/38] fix: restore the holes of polygons when reading them

---
 geometry/src/polygon3d.rs | 50 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 49 insertions(+), 1 deletion(-)

diff --git a/geometry/src/polygon3d.rs b/geometry/src/polygon3d.rs
index dac68b7..7446598 100644
--- a/geometry/src/polygon3d.rs
+++ b/geometry/src/polygon3d.rs
@@ -76,7 +76,10 @@ impl<'de> Deserialize<'de> for Polygon3D {
     {
         let data: Loop3D = Deserialize::deserialize(deserializer)?;
 
-        Ok(data.into())
+        match Polygon3D::from_closed_loop(&data) {
+            Ok(p) => Ok(p),
+            Err(_) => Ok(data.into()),
+        }
     }
 }
 
@@ -372,6 +375,51 @@ impl Polygon3D {
         ret_loop
     } // end of get_closed_polygon
 
+    /// Undoes [`Polygon3D::get_closed_loop`]; that is, identifies the holes that
+    /// are connected to the outer [`Loop3D`] by going back and forth through the same
+    /// segment.
+    fn from_closed_loop(closed: &Loop3D) -> Result<Self, String> {
+        let mut outer: Vec<Point3D> = closed.vertices().to_vec();
+        let mut holes: Vec<Vec<Point3D>> = Vec::new();
+
+        // Holes can be connected to other holes, so find the shortest ones first.
+        let mut span = 5;
+        while span < outer.len() {
+            let hole = (0..outer.len() - span).find(|ini| {
+                let fin = ini + span;
+                outer[*ini] == outer[fin] && outer[ini + 1] == outer[fin - 1]
+            });
+            match hole {
+                Some(ini) => {
+                    let mut hole: Vec<Point3D> = outer.drain(ini + 1..ini + span + 1).collect();
+                    hole.truncate(span - 2); // the last ones are repeated
+                    holes.push(hole);
+                    span = 5;
+                }
+                None => span += 1,
+            }
+        }
+
+        if holes.is_empty() {
+            return Polygon3D::new(closed.clone());
+        }
+
+        let as_loop = |vertices: Vec<Point3D>| -> Result<Loop3D, String> {
+            let mut l = Loop3D::with_capacity(vertices.len());
+            for p in vertices {
+                l.push(p)?;
+            }
+            l.close()?;
+            Ok(l)
+        };
+
+        let mut ret = Polygon3D::new(as_loop(outer)?)?;
+        for hole in holes.into_iter().rev() {
+            ret.cut_hole(as_loop(hole)?)?;
+        }
+        Ok(ret)
+    }
+
     /// Checks whether the [`Polygon3D`] contains a certain [`Segment3D`]
     /// in any of its loops
     pub fn contains_segment(&self, s: &Segment3D) -> bool {
-- 
2.43.0


From 266bd840905cf3ca1780105c44110a1f6e9e9d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:20 +0000
Subject: [PATCH 22/38] fix: do not count crossings through a vertex twice when
 testing if a point is inside a Loop3D

---
 geometry/src/loop3d.rs | 37 +++++++++++++------------------------
 1 file changed, 13 insertions(+), 24 deletions(-)

diff --git a/geometry/src/loop3d.rs b/geometry/src/loop3d.rs
index 349ef91..a0a62a7 100644
--- a/geometry/src/loop3d.rs
+++ b/geometry/src/loop3d.rs
@@ -717,8 +717,11 @@ impl Loop3D {
         }
 
         // Ray cast
-        let d = (point - (self.vertices[0] + self.vertices[1]) * 0.5) * 1000.; // Should be enough...?
-        let ray = Segment3D::new(point, point + d);
+        let d = point - (self.vertices[0] + self.vertices[1]) * 0.5;
+        // Side of the ray in which a vertex is. A vertex that is on the ray itself is
+        // always given the same side, so the ray is never counted twice (or missed)
+        // when it goes through it.
+        let is_left = |v: Point3D| d.cross(v - point) * self.normal;
 
         let mut n_cross = 0;
         let n = self.vertices.len();
@@ -732,28 +735,14 @@ impl Loop3D {
                 return Ok(true);
             }
 
-            // Check if the ray and the segment touch. We only consider
-            // touching at the start (e.g., t_a between [0 and 1) ) in
-            // order not to count vertices twice.
-            if let Some((t_a, t_b)) = segment_ab.get_intersection_pt(&ray) {
-                // If the ray intersects
-                if (0. ..=1.).contains(&t_b) && (0. ..=1.).contains(&t_a) {
-                    if t_a < Float::EPSILON {
-                        // if the intersection is at the start of the segment
-                        let side_normal = d.cross(segment_ab.as_vector3d());
-                        if side_normal.is_same_direction(self.normal) {
-                            n_cross += 1
-                        }
-                    } else if t_a < 1. {
-                        // intersection is within the segment (not including the end)
-                        n_cross += 1;
-                    } else {
-                        // if the intersection is at the end of the segment
-                        let side_normal = d.cross(segment_ab.as_reversed_vector3d());
-                        if side_normal.is_same_direction(self.normal) {
-                            n_cross += 1
-                        }
-                    }
+            // Check if the segment goes from one side of the ray to the other, ahead
+            // of the point.
+            let side_a = is_left(vertex_a);
+            let side_b = is_left(vertex_b);
+            if (side_a > 0.) != (side_b > 0.) {
+                let crossing = vertex_a + (vertex_b - vertex_a) * (side_a / (side_a - side_b));
+                if (crossing - point) * d > 0. {
+                    n_cross += 1;
                 }
             }
         }
-- 
2.43.0


From 3b679a80ea4850bc719ce23c57357099c602772c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:20 +0000
Subject: [PATCH 23/38] fix: do not cut ears that contain other vertices when
 triangulating polygons

---
 geometry/src/triangulation3d.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/geometry/src/triangulation3d.rs b/geometry/src/triangulation3d.rs
index 5652d9e..85749e4 100644
--- a/geometry/src/triangulation3d.rs
+++ b/geometry/src/triangulation3d.rs
@@ -33,7 +33,7 @@ use crate::Float;
 
 */
 
-use crate::{Point3D, PointInTriangle, Polygon3D, Segment3D, Triangle3D};
+use crate::{Loop3D, Point3D, PointInTriangle, Polygon3D, Segment3D, Triangle3D};
 
 #[derive(Clone, Copy, Eq, PartialEq, Debug)]
 #[repr(u8)]
@@ -201,6 +201,22 @@ impl Default for Triangulation3D {
     }
 }
 
+/// Checks that the triangle made of three successive vertices of a [`Loop3D`] can be
+/// cut from it; i.e., that no other vertex is inside of the triangle or on its diagonal.
+fn is_ear(the_loop: &Loop3D, v0: Point3D, v1: Point3D, v2: Point3D) -> Result<bool, String> {
+    let triangle = Triangle3D::new(v0, v1, v2)?;
+    Ok(!the_loop
+        .vertices()
+        .iter()
+        .filter(|v| !v.compare(v0) && !v.compare(v1) && !v.compare(v2))
+        .any(|v| {
+            matches!(
+                triangle.test_point(*v),
+                PointInTriangle::Inside | PointInTriangle::EdgeAC
+            )
+        }))
+}
+
 impl std::convert::TryFrom<&Polygon3D> for Triangulation3D {
     type Error = String;
 
@@ -237,7 +253,7 @@ impl std::convert::TryFrom<&Polygon3D> for Triangulation3D {
 
             // this will be false if potential_diag is very small.
             let is_diagonal = the_loop.is_diagonal(potential_diag)?;
-            if (n == 3) || (!is_line && is_diagonal) {
+            if (n == 3) || (!is_line && is_diagonal && is_ear(&the_loop, v0, v1, v2)?) {
                 // Add triangle
                 t.push(v0, v1, v2, last_added)?;
 
-- 
2.43.0


From d1abcdf80abede438b1822c5d68c14b1ba37ebcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:20 +0000
Subject: [PATCH 24/38] fix: connect holes to the outside of a polygon without
 crossing other holes

---
 geometry/src/polygon3d.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/geometry/src/polygon3d.rs b/geometry/src/polygon3d.rs
index 7446598..56eec84 100644
--- a/geometry/src/polygon3d.rs
+++ b/geometry/src/polygon3d.rs
@@ -313,7 +313,9 @@ impl Polygon3D {
                         // the same but the calculation is faster.
                         let distance = ext_vertex.squared_distance(inner_vertex);
 
-                        if distance < min_distance {
+                        if distance < min_distance
+                            && !self.is_blocked(&ret_loop, ext_vertex, inner_vertex)
+                        {
                             min_distance = distance;
                             min_ext_vertex_id = j;
                             //min_int_vertex_id = l;
@@ -375,6 +377,17 @@ impl Polygon3D {
         ret_loop
     } // end of get_closed_polygon
 
+    /// Checks whether the segment between two points crosses an open `outer` loop
+    /// or any of the holes
+    fn is_blocked(&self, outer: &Loop3D, a: Point3D, b: Point3D) -> bool {
+        let bridge = Segment3D::new(a, b);
+        let mut aux = Point3D::new(0., 0., 0.);
+        std::iter::once(outer).chain(self.inner.iter()).any(|l| {
+            let n = l.len();
+            (0..n).any(|i| bridge.intersect(&Segment3D::new(l[i], l[(i + 1) % n]), &mut aux))
+        })
+    }
+
     /// Undoes [`Polygon3D::get_closed_loop`]; that is, identifies the holes that
     /// are connected to the outer [`Loop3D`] by going back and forth through the same
     /// segment.
-- 
2.43.0


From a609f4c3d21923682e7053b3009009a0529e6b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:06 +0000
Subject: [PATCH 25/38] fix: march surfaces from the temperatures in the state,
 not those of the last march

---
 heat/src/heat_model.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/heat/src/heat_model.rs b/heat/src/heat_model.rs
index e21736f..b945213 100644
--- a/heat/src/heat_model.rs
+++ b/heat/src/heat_model.rs
@@ -142,6 +142,12 @@ pub(crate) fn iterate_surfaces<T: SurfaceTrait + Send + Sync>(
 
             let (t_front, t_back) = boundary_temps[index];
 
+            // Start from the temperatures in the state. The memory might have
+            // been used with another one.
+            thermal_surface
+                .parent
+                .get_node_temperatures(state, &mut memory.temperatures)?;
+
             // Update temperatures
             thermal_surface.march(
                 state,
-- 
2.43.0


From afa7907a3af0d462e3b454ba40e5879e9fb1a2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:11 +0000
Subject: [PATCH 26/38] fix: let '-h' be the field of view in spict, as
 documented, and not also the help

---
 bin/spict.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bin/spict.rs b/bin/spict.rs
index ecb074e..31f504c 100644
--- a/bin/spict.rs
+++ b/bin/spict.rs
@@ -78,7 +78,8 @@ impl std::str::FromStr for Triplet {
 /// A program for Rendering an image from a .rad (i.e., Radiance) or .spl (i.e., Simple)
 /// formats
 #[derive(Parser, Debug)]
-#[clap(author, version, about, long_about = None)]
+// '-h' is the horizontal field of view
+#[clap(author, version, about, long_about = None, disable_help_flag = true)]
 struct Inputs {
     #[clap(short, long)]
     /// The file to load the model from
@@ -129,6 +130,10 @@ struct Inputs {
     /// The horizontal field of view, in degrees
     #[clap(short = 'h', long = "view_horizontal", default_value_t = 60.)]
     pub field_of_view: Float,
+
+    /// Print help
+    #[clap(long, action = clap::ArgAction::Help)]
+    pub help: Option<bool>,
 }
 
 fn main() -> Result<(), String> {
-- 
2.43.0


From 216d8e40212579a3b502cb2993b8199711a830b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:01 +0000
Subject: [PATCH 27/38] fix: use the temperature of the back of a surface in
 its back ambient boundary

---
 heat/src/surface.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heat/src/surface.rs b/heat/src/surface.rs
index f5b12a4..91f351d 100644
--- a/heat/src/surface.rs
+++ b/heat/src/surface.rs
@@ -684,7 +684,7 @@ impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
                     air_temperature: *temperature,
                     air_speed: 0.0,
                     rad_temperature: *temperature,
-                    surface_temperature: self.parent.front_temperature(state),
+                    surface_temperature: self.parent.back_temperature(state),
                     roughness_index: 1,
                     cos_surface_tilt: self.cos_tilt,
                 };
-- 
2.43.0


From 66770114039eb14b5cce82a57c44c23093d70abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:01 +0000
Subject: [PATCH 28/38] fix: limit the solar irradiance of the back of a
 surface by its own value

---
 heat/src/surface.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heat/src/surface.rs b/heat/src/surface.rs
index 91f351d..3eac4ad 100644
--- a/heat/src/surface.rs
+++ b/heat/src/surface.rs
@@ -1267,7 +1267,7 @@ impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
             solar_front = 0.0;
         }
         let mut solar_back = self.parent.back_solar_irradiance(state);
-        if solar_back.is_nan() || solar_front < 0.0 {
+        if solar_back.is_nan() || solar_back < 0.0 {
             solar_back = 0.0;
         }
 
-- 
2.43.0


From 6ce2fa7bddd3ba436ae780ca9790c6c82076baf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:15 +0000
Subject: [PATCH 29/38] fix: mirror the tilt for the indoor and ambient front
 sides of surfaces

---
 heat/src/surface.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/heat/src/surface.rs b/heat/src/surface.rs
index 3eac4ad..37f2b02 100644
--- a/heat/src/surface.rs
+++ b/heat/src/surface.rs
@@ -606,7 +606,7 @@ impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
                     rad_temperature: t_front,
                     surface_temperature: self.parent.front_temperature(state),
                     roughness_index: 1,
-                    cos_surface_tilt: self.cos_tilt,
+                    cos_surface_tilt: -self.cos_tilt,
                 };
 
                 let front_hs = match self.front_hs {
@@ -623,7 +623,7 @@ impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
                     rad_temperature: *temperature,
                     surface_temperature: self.parent.front_temperature(state),
                     roughness_index: 1,
-                    cos_surface_tilt: self.cos_tilt,
+                    cos_surface_tilt: -self.cos_tilt,
                 };
 
                 let front_hs = match self.front_hs {
-- 
2.43.0


From 481e9e7833b9c5881af4a62779f0cbbba1bea004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:43 +0000
Subject: [PATCH 30/38] fix: decide whether the back of a surface is windward
 by its own orientation

---
 heat/src/surface.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heat/src/surface.rs b/heat/src/surface.rs
index 37f2b02..893d5a1 100644
--- a/heat/src/surface.rs
+++ b/heat/src/surface.rs
@@ -712,7 +712,7 @@ impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
                     None => back_env.get_tarp_convection_coefficient(
                         self.area,
                         self.perimeter,
-                        windward,
+                        is_windward(wind_direction, self.cos_tilt, self.normal * -1.),
                     ),
                 };
 
-- 
2.43.0


From fe2c18d24588367a320915fa1b8dcf4feb4e4189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:15 +0000
Subject: [PATCH 31/38] fix: use the back solar absorptance for the sun that
 arrives from the back

---
 heat/src/surface.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/heat/src/surface.rs b/heat/src/surface.rs
index 893d5a1..fa44cb2 100644
--- a/heat/src/surface.rs
+++ b/heat/src/surface.rs
@@ -432,6 +432,11 @@ impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
         // Calculate solar absoption
         let front_glazing = Glazing::get_front_glazing_system(construction, model)?;
         let back_glazing = Glazing::get_back_glazing_system(construction, model)?;
+        // These are still described as seen from the front
+        let back_glazing: Vec<Glazing> = back_glazing
+            .iter()
+            .map(|g| Glazing::new(g.tau(), g.rho_back(), g.rho_front()))
+            .collect();
         // These two are the absorbtion of each glazing layer. We need the absorption of each node
         let front_alphas_prev = Glazing::alphas(&front_glazing);
 
-- 
2.43.0


From 703b98dafb694e293221de30e751ba3b43c5e663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:15 +0000
Subject: [PATCH 32/38] fix: heat sealed rooms that have no other heat exchange

---
 heat/src/heat_model.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/heat/src/heat_model.rs b/heat/src/heat_model.rs
index b945213..10b7144 100644
--- a/heat/src/heat_model.rs
+++ b/heat/src/heat_model.rs
@@ -719,8 +719,9 @@ impl ThermalModel {
                     a[i] / b[i] + (t_current[i] - a[i] / b[i]) * (-b[i] * future_time / c[i]).exp(),
                 );
             } else {
-                // A space that is disconnected from everything... maintains its temperature
-                ret.push(t_current[i]);
+                // A space that is disconnected from everything... maintains its temperature,
+                // unless something heats it up or cools it down
+                ret.push(t_current[i] + a[i] * future_time / c[i]);
             }
         }
 
-- 
2.43.0


From 02fd154959d3042a9d7e715a87754447b970fb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:15 +0000
Subject: [PATCH 33/38] fix: keep the solar irradiance of windows from being
 negative, like that of walls

---
 light/src/solar_model.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/light/src/solar_model.rs b/light/src/solar_model.rs
index 1176b1e..bd83385 100644
--- a/light/src/solar_model.rs
+++ b/light/src/solar_model.rs
@@ -316,7 +316,10 @@ impl SolarModel {
                     s.set_front_incident_solar_irradiance(state, 0.0)?;
                 }
                 // Average of the period
-                let v = solar_irradiance.get(i, 0)?;
+                let mut v = solar_irradiance.get(i, 0)?;
+                if v < 0.0 {
+                    v = 0.0
+                }
                 let old_v = s.front_incident_solar_irradiance(state).ok_or(
                     "Could not get previous front incident solar irradiance (fenestration)",
                 )?;
@@ -333,7 +336,10 @@ impl SolarModel {
                     s.set_back_incident_solar_irradiance(state, 0.0)?;
                 }
                 // Average of the period
-                let v = solar_irradiance.get(i, 0)?;
+                let mut v = solar_irradiance.get(i, 0)?;
+                if v < 0.0 {
+                    v = 0.0
+                }
                 let old_v = s.back_incident_solar_irradiance(state).ok_or(
                     "Could not get previous back incident solar irradiance (fenestration)",
                 )?;
-- 
2.43.0


From 56be48d010f27d5ef78b246806de2a69e1b3e542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:15 +0000
Subject: [PATCH 34/38] fix: report an index out of range in an empty list
 instead of overflowing

---
 derive/src/object_enum.rs   | 2 +-
 derive/src/object_struct.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/derive/src/object_enum.rs b/derive/src/object_enum.rs
index 966e0d4..c4039a7 100644
--- a/derive/src/object_enum.rs
+++ b/derive/src/object_enum.rs
@@ -366,7 +366,7 @@ impl EnumObject {
                             return Err(format!(#negative_index_err, index).into())
                         }
                         if index >= len as i64 {
-                            return Err(format!(#out_of_bounds_err, index, len - 1).into());
+                            return Err(format!(#out_of_bounds_err, index, len as i64 - 1).into());
                         }
                         match &new_mod.#location[index as usize]{
                             #index_match_statement
diff --git a/derive/src/object_struct.rs b/derive/src/object_struct.rs
index a1b3617..3630a34 100644
--- a/derive/src/object_struct.rs
+++ b/derive/src/object_struct.rs
@@ -630,7 +630,7 @@ impl StructObject {
                     return Err(format!(#negative_index_err, index).into())
                 }
                 if index >= len as i64 {
-                    return Err(format!(#out_of_bounds_err, index, len - 1).into());
+                    return Err(format!(#out_of_bounds_err, index, len as i64 - 1).into());
                 }
                 Ok(std::sync::Arc::clone(&new_mod.#location[index as usize]))
             });
-- 
2.43.0


From 06017ee53d37670b2597362d7c7418c29427503a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:42 +0000
Subject: [PATCH 35/38] fix: register the irradiance of openings also when the
 optical data is read from a file

---
 light/src/solar_model.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/light/src/solar_model.rs b/light/src/solar_model.rs
index bd83385..f34ee8b 100644
--- a/light/src/solar_model.rs
+++ b/light/src/solar_model.rs
@@ -418,6 +418,11 @@ impl SimulationModel for SolarModel {
                     ));
                 }
 
+                // Calculating the optical info registers the states of the
+                // surfaces and fenestrations. Do the same when reading it.
+                SolarSurface::make_surfaces(&model.surfaces, state, 0)?;
+                SolarSurface::make_fenestrations(&model.fenestrations, state, 0)?;
+
                 info
             } else {
                 // write into file
-- 
2.43.0


From 965d0485cf42d9dbed6266c95e9cc1e7b772ca35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:21 +0000
Subject: [PATCH 36/38] fix: reject an EPW file that has no LOCATION instead of
 assuming one

---
 weather/src/epw/scanner.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/weather/src/epw/scanner.rs b/weather/src/epw/scanner.rs
index 71ce40c..037e72d 100644
--- a/weather/src/epw/scanner.rs
+++ b/weather/src/epw/scanner.rs
@@ -185,6 +185,7 @@ impl<'a> EPWScanner<'a> {
     /// file. However, for now it only scans the location and the
     /// data
     fn parse_file(&mut self, epw: &mut EPWWeather) -> Result<(), String> {
+        let mut has_location = false;
         loop {
             // Scan
             let slice_option = self.scan_element();
@@ -203,6 +204,7 @@ impl<'a> EPWScanner<'a> {
             // Parse location, when found
             if keyword == *"LOCATION" {
                 self.parse_location(epw)?;
+                has_location = true;
             }
 
             if keyword == *"DATA PERIODS" {
@@ -210,6 +212,10 @@ impl<'a> EPWScanner<'a> {
             }
         }
 
+        if !has_location {
+            return Err("The EPW file has no LOCATION".to_string());
+        }
+
         Ok(())
     }
 
-- 
2.43.0


From e418d92f85a5440b3e2992eac704749b2753a75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:58 +0000
Subject: [PATCH 37/38] fix: keep the minutes of a weather file's time zone

---
 src/run_simulation.rs      |  2 +-
 weather/src/epw/scanner.rs | 10 +++++++++-
 weather/src/location.rs    | 18 ++++++++++++++++--
 3 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/run_simulation.rs b/src/run_simulation.rs
index bd63b22..0475e5d 100644
--- a/src/run_simulation.rs
+++ b/src/run_simulation.rs
@@ -142,7 +142,7 @@ fn pre_process(
     let meta_options = MetaOptions {
         latitude: weather.location.latitude,
         longitude: weather.location.longitude,
-        standard_meridian: (weather.location.timezone as Float * 15.).to_radians(),
+        standard_meridian: weather.location.standard_meridian(),
         elevation: weather.location.elevation,
     };
 
diff --git a/weather/src/epw/scanner.rs b/weather/src/epw/scanner.rs
index 037e72d..9eead89 100644
--- a/weather/src/epw/scanner.rs
+++ b/weather/src/epw/scanner.rs
@@ -303,7 +303,15 @@ impl<'a> EPWScanner<'a> {
 
         epw.location.latitude = EPWScanner::scan_number(self.scan_element())?.to_radians();
         epw.location.longitude = EPWScanner::scan_number(self.scan_element())?.to_radians();
-        epw.location.timezone = EPWScanner::scan_number(self.scan_element())? as i8;
+        let timezone = EPWScanner::scan_number(self.scan_element())?;
+        if !(-14.0..=14.0).contains(&timezone) {
+            return Err(format!(
+                "Time zone must be between -14 and 14 hours... found {}",
+                timezone
+            ));
+        }
+        epw.location.timezone = timezone.trunc() as i8;
+        epw.location.timezone_minutes = (timezone.fract() * 60.).round() as i8;
         epw.location.elevation = EPWScanner::scan_number(self.scan_element())?;
 
         Ok(())
diff --git a/weather/src/location.rs b/weather/src/location.rs
index 472cd3d..b0f4458 100644
--- a/weather/src/location.rs
+++ b/weather/src/location.rs
@@ -51,18 +51,32 @@ pub struct Location {
     /// West is Negative, East is Positive    
     pub longitude: Float,
 
-    /// The Timezone of the location (GMT)
+    /// The Timezone of the location (GMT), in whole hours
     pub timezone: i8,
 
+    /// The minutes to add to the `timezone`, in those places in which it
+    /// is not a whole number of hours (e.g., `30` in India, GMT+5:30, and
+    /// `-30` in Newfoundland, GMT-3:30)
+    #[serde(default)]
+    pub timezone_minutes: i8,
+
     /// The elevation of the weather station
     pub elevation: Float,
 }
 
 impl Location {
+    /// The standard meridian of the location's Timezone, in Radians.
+    ///
+    /// West is Negative, East is Positive
+    pub fn standard_meridian(&self) -> Float {
+        let hours = self.timezone as Float + self.timezone_minutes as Float / 60.;
+        (hours * 15.0).to_radians()
+    }
+
     /// Builds a [`Solar`] object corresponding to
     /// this location
     pub fn get_solar(&self) -> Solar {
-        let stdmer = ((self.timezone as Float) * 15.0).to_radians();
+        let stdmer = self.standard_meridian();
         Solar::new(self.latitude, -self.longitude, -stdmer)
     }
 }
-- 
2.43.0


From 88b7a3ac5a5b00040b0811a3936533e51ad51124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:58 +0000
Subject: [PATCH 38/38] fix: hour angle of a solar time in the previous year

---
 weather/src/solar/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/weather/src/solar/mod.rs b/weather/src/solar/mod.rs
index f2054a4..3a8b9d6 100644
--- a/weather/src/solar/mod.rs
+++ b/weather/src/solar/mod.rs
@@ -176,8 +176,9 @@ impl Solar {
     pub fn hour_angle(&self, n: Time) -> Float {
         let n = self.unwrap_solar_time(n);
 
-        // Remove the day (keep the hour). Multiply by 24 hours
-        let solar_hour = 24. * (n % 1.);
+        // Remove the day (keep the hour). Multiply by 24 hours. Note that
+        // the solar time of the first hours of the year can be negative
+        let solar_hour = 24. * n.rem_euclid(1.);
 
         // Multiply for 24 hours, and by 15degrees/hour
         ((solar_hour - 12.) * 15.).to_radians()
-- 
2.43.0

