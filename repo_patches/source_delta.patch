From d0201917025195ee516a2c9395e660dcce6bf6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:23 +0000
Subject: [PATCH 01/32] fix: address-unit words wrap instead of overflowing
 host arithmetic

---
 src/core.rs   | 9 ++++++---
 src/float.rs  | 6 ++++--
 src/memory.rs | 6 +++---
 3 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 7b1c475..4cf8716 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -2460,7 +2460,8 @@ pub trait Core: Sized {
     ///Add the size in address units of a character to `c-addr1`, giving `c-addr2`.
     fn char_plus(&mut self) {
         let v = self.s_stack().pop();
-        self.s_stack().push(v + mem::size_of::<u8>() as isize);
+        self.s_stack()
+            .push(v.wrapping_add(mem::size_of::<u8>() as isize));
     }
 
     /// Run-time: ( a-addr1 -- a-addr2 )
@@ -2468,7 +2469,8 @@ pub trait Core: Sized {
     /// Add the size in address units of a cell to `a-addr1`, giving `a-addr2`.
     fn cell_plus(&mut self) {
         let v = self.s_stack().pop();
-        self.s_stack().push(v + mem::size_of::<isize>() as isize);
+        self.s_stack()
+            .push(v.wrapping_add(mem::size_of::<isize>() as isize));
     }
 
     /// Run-time: ( n1 -- n2 )
@@ -2476,7 +2478,8 @@ pub trait Core: Sized {
     /// `n2` is the size in address units of `n1` cells.
     fn cells(&mut self) {
         let v = self.s_stack().pop();
-        self.s_stack().push(v * mem::size_of::<isize>() as isize);
+        self.s_stack()
+            .push(v.wrapping_mul(mem::size_of::<isize>() as isize));
     }
 
     fn swap(&mut self) {
diff --git a/src/float.rs b/src/float.rs
index e52b370..9132710 100644
--- a/src/float.rs
+++ b/src/float.rs
@@ -74,7 +74,8 @@ pub trait Float: Core {
     /// Add the size in address units of a float to `a-addr1`, giving `a-addr2`.
     fn float_plus(&mut self) {
         let v = self.s_stack().pop();
-        self.s_stack().push(v + mem::size_of::<f64>() as isize);
+        self.s_stack()
+            .push(v.wrapping_add(mem::size_of::<f64>() as isize));
     }
 
     /// Run-time: ( n1 -- n2 )
@@ -82,7 +83,8 @@ pub trait Float: Core {
     /// `n2` is the size in address units of `n1` floats.
     fn floats(&mut self) {
         let v = self.s_stack().pop();
-        self.s_stack().push(v * mem::size_of::<f64>() as isize);
+        self.s_stack()
+            .push(v.wrapping_mul(mem::size_of::<f64>() as isize));
     }
 
     /// Run-time: ( addr -- a-addr )
diff --git a/src/memory.rs b/src/memory.rs
index 61f3cc4..c403940 100644
--- a/src/memory.rs
+++ b/src/memory.rs
@@ -268,7 +268,7 @@ pub trait Memory {
     /// First aligned address greater than or equal to `pos`.
     fn aligned(pos: usize) -> usize {
         let align = mem::align_of::<isize>();
-        (pos + align - 1) & align.wrapping_neg()
+        pos.wrapping_add(align - 1) & align.wrapping_neg()
     }
 
     /// If the data-space pointer is not aligned, reserve enough space to align it.
@@ -280,7 +280,7 @@ pub trait Memory {
     /// First float-aligned address greater than or equal to `pos`.
     fn aligned_f64(pos: usize) -> usize {
         let align = mem::align_of::<f64>();
-        (pos + align - 1) & align.wrapping_neg()
+        pos.wrapping_add(align - 1) & align.wrapping_neg()
     }
 
     /// If the data-space pointer is not float-aligned, reserve enough space to align it.
@@ -292,7 +292,7 @@ pub trait Memory {
     /// First address aligned to 16-byte boundary greater than or equal to `pos`.
     fn aligned_16bytes(pos: usize) -> usize {
         let align = 16;
-        (pos + align - 1) & align.wrapping_neg()
+        pos.wrapping_add(align - 1) & align.wrapping_neg()
     }
 
     /// If the space pointer is not aligned to 16-byte boundary, reserve enough space to align it.
-- 
2.43.0


From 4365ba2478b69ccf31526ed9e7dec02d269a10bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:23 +0000
Subject: [PATCH 02/32] fix: task words reject the most negative task number
 without overflowing

---
 src/core.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 4cf8716..f1d286e 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -1627,7 +1627,7 @@ pub trait Core: Sized {
     }
 
     fn activate(&mut self) {
-        let i = (self.s_stack().pop() - 1) as usize;
+        let i = self.s_stack().pop().wrapping_sub(1) as usize;
         if i < NUM_TASKS {
             // Wake task `i`.
             self.set_awake(i, true);
@@ -3228,7 +3228,7 @@ pub trait Core: Sized {
 
     /// Suspend task `i`. `suspend ( i -- )`
     fn suspend(&mut self) {
-        let i = (self.s_stack().pop() - 1) as usize;
+        let i = self.s_stack().pop().wrapping_sub(1) as usize;
         if i < NUM_TASKS {
             self.set_awake(i as usize, false);
         } else {
@@ -3238,7 +3238,7 @@ pub trait Core: Sized {
 
     /// Resume task `i`. `resume ( i -- )`
     fn resume(&mut self) {
-        let i = (self.s_stack().pop() - 1) as usize;
+        let i = self.s_stack().pop().wrapping_sub(1) as usize;
         if i < NUM_TASKS {
             self.set_awake(i as usize, true);
         } else {
-- 
2.43.0


From 75714cd817fd447785a4588d69e680ff907b485d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:23 +0000
Subject: [PATCH 03/32] fix: i and j outside a loop do not overflow the stack
 index

---
 src/core.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index f1d286e..feb6885 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -1079,9 +1079,9 @@ pub trait Core: Sized {
     }
 
     fn p_j(&mut self) {
-        let pos = self.r_stack().len() - 4;
+        let pos = self.r_stack().len().wrapping_sub(4);
         match self.r_stack().get(pos) {
-            Some(jt) => match self.r_stack().get(pos - 1) {
+            Some(jt) => match self.r_stack().get(pos.wrapping_sub(1)) {
                 Some(jn) => {
                     self.s_stack().push(jt.wrapping_add(jn));
                 }
@@ -1651,7 +1651,7 @@ pub trait Core: Sized {
     fn p_i(&mut self) {
         match self.r_stack().last() {
             Some(it) => {
-                let next = self.r_stack().len - 2;
+                let next = self.r_stack().len.wrapping_sub(2);
                 match self.r_stack().get(next) {
                     Some(inext) => {
                         self.s_stack().push(it.wrapping_add(inext));
-- 
2.43.0


From bb823bbffd1a9eb616cb734a0c383c1501c62690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:23 +0000
Subject: [PATCH 04/32] fix: a very negative field width pads nothing

---
 src/output.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/output.rs b/src/output.rs
index feece3d..8a4dabd 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -156,7 +156,7 @@ pub trait Output: Core {
                 }
             }
             if valid_base {
-                for _ in 0..(n2 - self.hold_buffer().len() as isize) {
+                for _ in 0..n2.saturating_sub(self.hold_buffer().len() as isize) {
                     buf.push(' ');
                 }
                 buf.push_str(self.hold_buffer());
@@ -199,7 +199,7 @@ pub trait Output: Core {
                 16 => write!(self.hold_buffer(), "{:.16}", r).unwrap(),
                 _ => write!(self.hold_buffer(), "{:.17}", r).unwrap(),
             }
-            for _ in 0..(n1 - self.hold_buffer().len() as isize) {
+            for _ in 0..n1.saturating_sub(self.hold_buffer().len() as isize) {
                 buf.push(' ');
             }
             buf.push_str(self.hold_buffer());
-- 
2.43.0


From 813fb8a724d524f6d684c382078960c23aba8221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:23 +0000
Subject: [PATCH 05/32] fix: access cells and floats at any address without
 misaligned dereference

---
 src/memory.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/memory.rs b/src/memory.rs
index c403940..054e983 100644
--- a/src/memory.rs
+++ b/src/memory.rs
@@ -129,15 +129,15 @@ pub trait Memory {
     }
 
     unsafe fn get_usize(&self, addr: usize) -> usize {
-        *(addr as *mut usize)
+        (addr as *const usize).read_unaligned()
     }
 
     unsafe fn get_isize(&self, addr: usize) -> isize {
-        *(addr as *mut isize)
+        (addr as *const isize).read_unaligned()
     }
 
     unsafe fn get_f64(&self, addr: usize) -> f64 {
-        *(addr as *mut f64)
+        (addr as *const f64).read_unaligned()
     }
 
     unsafe fn get_str(&self, addr: usize) -> &str {
@@ -178,7 +178,7 @@ pub trait Memory {
     }
 
     unsafe fn put_usize(&mut self, v: usize, pos: usize) {
-        *(pos as *mut usize) = v;
+        (pos as *mut usize).write_unaligned(v);
     }
 
     fn compile_usize(&mut self, v: usize) {
@@ -200,7 +200,7 @@ pub trait Memory {
     }
 
     unsafe fn put_isize(&mut self, v: isize, pos: usize) {
-        *(pos as *mut isize) = v;
+        (pos as *mut isize).write_unaligned(v);
     }
 
     fn compile_isize(&mut self, v: isize) {
@@ -215,7 +215,7 @@ pub trait Memory {
         }
     }
     unsafe fn put_f64(&mut self, v: f64, pos: usize) {
-        *(pos as *mut f64) = v;
+        (pos as *mut f64).write_unaligned(v);
     }
 
     fn compile_f64(&mut self, v: f64) {
-- 
2.43.0


From 46e65b815f9cbb7762e83800bf3a5f2212aa5989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:52 +0000
Subject: [PATCH 06/32] fix: address range checks do not overflow for lengths
 near the end of the address space

---
 src/core.rs        | 18 ++++++------------
 src/file_access.rs | 12 +++++-------
 src/memory.rs      |  5 +++++
 3 files changed, 16 insertions(+), 19 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index feb6885..7566d21 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -800,9 +800,7 @@ pub trait Core: Sized {
     #[inline(never)]
     fn run(&mut self) {
         let mut ip = self.state().instruction_pointer;
-        while self.data_space().start() <= ip
-            && ip + mem::size_of::<isize>() <= self.data_space().limit()
-        {
+        while self.data_space().has_range(ip, mem::size_of::<isize>()) {
             let w = unsafe { self.data_space().get_isize(ip) as usize };
             self.state().instruction_pointer += mem::size_of::<isize>();
             self.execute_word(w);
@@ -815,9 +813,7 @@ pub trait Core: Sized {
     // Return true if there are more steps to execute, false if otherwise.
     fn forth(&mut self) -> bool {
         let mut ip = self.state().instruction_pointer;
-        if self.data_space().start() <= ip
-            && ip + mem::size_of::<isize>() <= self.data_space().limit()
-        {
+        if self.data_space().has_range(ip, mem::size_of::<isize>()) {
             let w = unsafe { self.data_space().get_isize(ip) as usize };
             self.state().instruction_pointer += mem::size_of::<isize>();
             self.execute_word(w);
@@ -2783,8 +2779,7 @@ pub trait Core: Sized {
     /// `x` is the value stored at `a-addr`.
     fn fetch(&mut self) {
         let t = self.s_stack().pop() as usize;
-        if self.data_space().start() < t && t + mem::size_of::<isize>() <= self.data_space().limit()
-        {
+        if self.data_space().start() < t && self.data_space().has_range(t, mem::size_of::<isize>()) {
             let value = unsafe { self.data_space().get_isize(t as usize) as isize };
             self.s_stack().push(value);
         } else {
@@ -2798,8 +2793,7 @@ pub trait Core: Sized {
     fn store(&mut self) {
         let (n, t) = self.s_stack().pop2();
         let t = t as usize;
-        if self.data_space().start() < t && t + mem::size_of::<isize>() <= self.data_space().limit()
-        {
+        if self.data_space().start() < t && self.data_space().has_range(t, mem::size_of::<isize>()) {
             unsafe { self.data_space().put_isize(n as isize, t as usize) };
         } else {
             self.abort_with(INVALID_MEMORY_ADDRESS);
@@ -2849,9 +2843,9 @@ pub trait Core: Sized {
             let addr1 = addr1 as usize;
             let addr2 = addr2 as usize;
             if self.data_space().start() < addr1
-                && addr1 + u <= self.data_space().limit()
+                && self.data_space().has_range(addr1, u)
                 && self.data_space().start() < addr2
-                && addr2 + u <= self.data_space().limit()
+                && self.data_space().has_range(addr2, u)
             {
                 unsafe {
                     if addr1 < addr2 {
diff --git a/src/file_access.rs b/src/file_access.rs
index a36810f..78261db 100644
--- a/src/file_access.rs
+++ b/src/file_access.rs
@@ -177,7 +177,7 @@ pub trait FileAccess: Core {
             }
         };
         let file = {
-            if self.data_space().start() <= caddr && caddr + u <= self.data_space().limit() {
+            if self.data_space().has_range(caddr, u) {
                 let path_name = unsafe { self.data_space().str_from_raw_parts(caddr, u) };
                 match options.open(&path_name) {
                     Err(_) => Err(FILE_IO_EXCEPTION),
@@ -220,7 +220,7 @@ pub trait FileAccess: Core {
             self.s_stack().push2(-1, INVALID_NUMERIC_ARGUMENT.into());
         } else {
             let result = {
-                if self.data_space().start() <= caddr && caddr + u <= self.data_space().limit() {
+                if self.data_space().has_range(caddr, u) {
                     let path_name = unsafe { self.data_space().str_from_raw_parts(caddr, u) };
                     match fs::remove_file(path_name) {
                         Err(_) => FILE_IO_EXCEPTION.into(),
@@ -269,7 +269,7 @@ pub trait FileAccess: Core {
             }
         };
         let file = {
-            if self.data_space().start() <= caddr && caddr + u <= self.data_space().limit() {
+            if self.data_space().has_range(caddr, u) {
                 let path_name = unsafe { self.data_space().str_from_raw_parts(caddr, u) };
                 match options.open(&path_name) {
                     Err(_) => Err(FILE_IO_EXCEPTION),
@@ -341,7 +341,7 @@ pub trait FileAccess: Core {
         } else {
             let mut file = self.files_mut()[fileid].take().unwrap();
             let result = {
-                if self.data_space().start() <= caddr && caddr + u1 <= self.data_space().limit() {
+                if self.data_space().has_range(caddr, u1) {
                     let mut buf = unsafe { self.data_space().buffer_from_raw_parts_mut(caddr, u1) };
                     file.read(&mut buf).or(Err(FILE_IO_EXCEPTION.into()))
                 } else {
@@ -383,9 +383,7 @@ pub trait FileAccess: Core {
             match self.files_mut()[fileid].take() {
                 Some(mut f) => {
                     let result = {
-                        if self.data_space().start() <= caddr
-                            && caddr + u <= self.data_space().limit()
-                        {
+                        if self.data_space().has_range(caddr, u) {
                             let buf = unsafe {
                                 self.data_space().buffer_from_raw_parts(caddr as _, u as _)
                             };
diff --git a/src/memory.rs b/src/memory.rs
index 054e983..40b6899 100644
--- a/src/memory.rs
+++ b/src/memory.rs
@@ -118,6 +118,11 @@ pub trait Memory {
         self.start() <= pos && pos < self.limit()
     }
 
+    /// Does memory contain all `len` bytes starting at `pos`?
+    fn has_range(&self, pos: usize, len: usize) -> bool {
+        self.start() <= pos && pos <= self.limit() && len <= self.limit() - pos
+    }
+
     /// Next free space
     fn here(&self) -> usize;
 
-- 
2.43.0


From ae95752b46a418fc85eded2a75f04ebfe7cd245b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:53 +0000
Subject: [PATCH 07/32] fix: type, open-source and path words read only valid
 text inside the data space

---
 src/file_access.rs | 28 +++++++++++++++++++---------
 src/loader.rs      | 15 +++++++++++----
 src/output.rs      | 18 ++++++++++++------
 3 files changed, 42 insertions(+), 19 deletions(-)

diff --git a/src/file_access.rs b/src/file_access.rs
index 78261db..e32b023 100644
--- a/src/file_access.rs
+++ b/src/file_access.rs
@@ -5,6 +5,7 @@ use exception::{
 };
 use std::fs::{self, OpenOptions};
 use std::io::{Read, Seek, SeekFrom, Write};
+use std::str;
 use Core;
 use Memory;
 
@@ -178,10 +179,13 @@ pub trait FileAccess: Core {
         };
         let file = {
             if self.data_space().has_range(caddr, u) {
-                let path_name = unsafe { self.data_space().str_from_raw_parts(caddr, u) };
-                match options.open(&path_name) {
+                let path_name = unsafe { self.data_space().buffer_from_raw_parts(caddr, u) };
+                match str::from_utf8(path_name) {
                     Err(_) => Err(FILE_IO_EXCEPTION),
-                    Ok(file) => Ok(file),
+                    Ok(path_name) => match options.open(path_name) {
+                        Err(_) => Err(FILE_IO_EXCEPTION),
+                        Ok(file) => Ok(file),
+                    },
                 }
             } else {
                 Err(INVALID_MEMORY_ADDRESS)
@@ -221,10 +225,13 @@ pub trait FileAccess: Core {
         } else {
             let result = {
                 if self.data_space().has_range(caddr, u) {
-                    let path_name = unsafe { self.data_space().str_from_raw_parts(caddr, u) };
-                    match fs::remove_file(path_name) {
+                    let path_name = unsafe { self.data_space().buffer_from_raw_parts(caddr, u) };
+                    match str::from_utf8(path_name) {
                         Err(_) => FILE_IO_EXCEPTION.into(),
-                        Ok(_) => 0,
+                        Ok(path_name) => match fs::remove_file(path_name) {
+                            Err(_) => FILE_IO_EXCEPTION.into(),
+                            Ok(_) => 0,
+                        },
                     }
                 } else {
                     INVALID_MEMORY_ADDRESS.into()
@@ -270,10 +277,13 @@ pub trait FileAccess: Core {
         };
         let file = {
             if self.data_space().has_range(caddr, u) {
-                let path_name = unsafe { self.data_space().str_from_raw_parts(caddr, u) };
-                match options.open(&path_name) {
+                let path_name = unsafe { self.data_space().buffer_from_raw_parts(caddr, u) };
+                match str::from_utf8(path_name) {
                     Err(_) => Err(FILE_IO_EXCEPTION),
-                    Ok(file) => Ok(file),
+                    Ok(path_name) => match options.open(path_name) {
+                        Err(_) => Err(FILE_IO_EXCEPTION),
+                        Ok(file) => Ok(file),
+                    },
                 }
             } else {
                 Err(INVALID_MEMORY_ADDRESS)
diff --git a/src/loader.rs b/src/loader.rs
index e23754e..bea536e 100644
--- a/src/loader.rs
+++ b/src/loader.rs
@@ -1,7 +1,9 @@
 //! Source input
 
 use core::Core;
-use exception::{Exception, FILE_IO_EXCEPTION, INVALID_NUMERIC_ARGUMENT};
+use exception::{
+    Exception, FILE_IO_EXCEPTION, INVALID_MEMORY_ADDRESS, INVALID_NUMERIC_ARGUMENT,
+};
 use memory::Memory;
 use output::Output;
 use std::fs::File;
@@ -38,14 +40,19 @@ pub trait HasLoader: Core + Output {
     /// or opened read-write.
     fn open_source(&mut self) {
         let (caddr, u, id) = self.s_stack().pop3();
+        if !self.data_space().has_range(caddr as usize, u as usize) {
+            self.abort_with(INVALID_MEMORY_ADDRESS);
+            return;
+        }
         if id > 0 && id - 1 < self.files().len() as isize {
             match self.files_mut()[id as usize - 1].take() {
                 Some(file) => {
                     let position = self.sources().iter().position(|x| x.is_none());
                     let reader = BufReader::new(file);
-                    let path = String::from(unsafe {
-                        self.data_space().str_from_raw_parts(caddr as _, u as _)
-                    });
+                    let path = String::from_utf8_lossy(unsafe {
+                        self.data_space().buffer_from_raw_parts(caddr as _, u as _)
+                    })
+                    .into_owned();
                     match position {
                         Some(sid) => {
                             self.sources_mut()[sid] = Some(Source { reader, path });
diff --git a/src/output.rs b/src/output.rs
index 8a4dabd..e23ea61 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -1,7 +1,7 @@
 //! Words output to console
 
 use core::Core;
-use exception::{STACK_UNDERFLOW, UNSUPPORTED_OPERATION};
+use exception::{INVALID_MEMORY_ADDRESS, STACK_UNDERFLOW, UNSUPPORTED_OPERATION};
 use memory::Memory;
 use std::fmt::Write;
 
@@ -54,15 +54,21 @@ pub trait Output: Core {
             self.abort_with(STACK_UNDERFLOW);
             return;
         }
+        if len == 0 {
+            return;
+        }
+        if !self.data_space().has_range(addr as usize, len as usize) {
+            self.abort_with(INVALID_MEMORY_ADDRESS);
+            return;
+        }
         match self.output_buffer().take() {
             Some(mut buffer) => {
                 {
-                    let s = unsafe {
-                        &self
-                            .data_space()
-                            .str_from_raw_parts(addr as usize, len as usize)
+                    let bytes = unsafe {
+                        self.data_space()
+                            .buffer_from_raw_parts(addr as usize, len as usize)
                     };
-                    buffer.push_str(s);
+                    buffer.push_str(&String::from_utf8_lossy(bytes));
                 }
                 self.set_output_buffer(buffer);
             }
-- 
2.43.0


From b22e371f9c4312f38de4538f13eb5b862bf0ad29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 08/32] fix: delete-file leaves one result when the path is too
 long

---
 src/file_access.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file_access.rs b/src/file_access.rs
index e32b023..d0d03d8 100644
--- a/src/file_access.rs
+++ b/src/file_access.rs
@@ -221,7 +221,7 @@ pub trait FileAccess: Core {
         let caddr = caddr as usize;
         let u = u as usize;
         if u > PATH_NAME_MAX_LEN {
-            self.s_stack().push2(-1, INVALID_NUMERIC_ARGUMENT.into());
+            self.s_stack().push(INVALID_NUMERIC_ARGUMENT.into());
         } else {
             let result = {
                 if self.data_space().has_range(caddr, u) {
-- 
2.43.0


From 19b59361ae0681890bb37d1c459fed240d15a62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 09/32] fix: inline operands and compiled names are read only
 inside the data space

---
 src/core.rs   | 41 ++++++++++++++++++++++++++++++++++-------
 src/memory.rs | 11 ++++++++++-
 2 files changed, 44 insertions(+), 8 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 7566d21..2b4c596 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -852,9 +852,24 @@ pub trait Core: Sized {
         self.compile_word(word_index);
     }
 
+    /// Cell of compiled code at `addr`.
+    ///
+    /// Invalid memory address if the cell is not in the data space.
+    fn code_cell(&mut self, addr: usize) -> Option<isize> {
+        if self.data_space().has_range(addr, mem::size_of::<isize>()) {
+            Some(unsafe { self.data_space().get_isize(addr) })
+        } else {
+            self.abort_with(INVALID_MEMORY_ADDRESS);
+            None
+        }
+    }
+
     fn lit(&mut self) {
         let ip = self.state().instruction_pointer;
-        let v = unsafe { self.data_space().get_isize(ip) as isize };
+        let v = match self.code_cell(ip) {
+            Some(v) => v,
+            None => return,
+        };
         let slen = self.s_stack().len.wrapping_add(1);
         self.s_stack().len = slen;
         self.s_stack()[slen.wrapping_sub(1)] = v;
@@ -870,6 +885,10 @@ pub trait Core: Sized {
 
     fn flit(&mut self) {
         let ip = DataSpace::aligned_f64(self.state().instruction_pointer as usize);
+        if !self.data_space().has_range(ip, mem::size_of::<f64>()) {
+            self.abort_with(INVALID_MEMORY_ADDRESS);
+            return;
+        }
         let v = unsafe { self.data_space().get_f64(ip) };
         let flen = self.f_stack().len.wrapping_add(1);
         self.f_stack().len = flen;
@@ -888,10 +907,15 @@ pub trait Core: Sized {
     /// Runtime of S"
     fn p_s_quote(&mut self) {
         let ip = self.state().instruction_pointer;
-        let (addr, cnt) = {
-            let s = unsafe { self.data_space().get_str(ip) };
-            (s.as_ptr() as isize, s.len() as isize)
+        let cnt = match self.code_cell(ip) {
+            Some(cnt) => cnt,
+            None => return,
         };
+        let addr = (ip + mem::size_of::<isize>()) as isize;
+        if !self.data_space().has_range(addr as usize, cnt as usize) {
+            self.abort_with(INVALID_MEMORY_ADDRESS);
+            return;
+        }
         let slen = self.s_stack().len.wrapping_add(2);
         self.s_stack().len = slen;
         self.s_stack()[slen.wrapping_sub(1)] = cnt;
@@ -908,7 +932,9 @@ pub trait Core: Sized {
 
     fn branch(&mut self) {
         let ip = self.state().instruction_pointer;
-        self.state().instruction_pointer = unsafe { self.data_space().get_isize(ip) as usize };
+        if let Some(destination) = self.code_cell(ip) {
+            self.state().instruction_pointer = destination as usize;
+        }
     }
 
     fn compile_branch(&mut self, destination: usize) -> usize {
@@ -1058,8 +1084,9 @@ pub trait Core: Sized {
             self.abort_with(RETURN_STACK_UNDERFLOW);
             return;
         }
-        self.state().instruction_pointer =
-            unsafe { self.data_space().get_isize(third as usize) as usize };
+        if let Some(destination) = self.code_cell(third as usize) {
+            self.state().instruction_pointer = destination as usize;
+        }
     }
 
     fn compile_leave(&mut self, word_idx: usize) {
diff --git a/src/memory.rs b/src/memory.rs
index 40b6899..e74e44a 100644
--- a/src/memory.rs
+++ b/src/memory.rs
@@ -5,6 +5,7 @@ use std::alloc::{alloc_zeroed, dealloc, Layout};
 use std::marker;
 use std::mem;
 use std::slice;
+use std::str;
 
 pub struct SystemVariables {
     null: isize,
@@ -145,10 +146,18 @@ pub trait Memory {
         (addr as *const f64).read_unaligned()
     }
 
+    /// String compiled at `addr`, empty if there is no valid string.
     unsafe fn get_str(&self, addr: usize) -> &str {
+        if !self.has_range(addr, mem::size_of::<usize>()) {
+            return "";
+        }
         let len = self.get_usize(addr);
         let a = addr + mem::size_of::<usize>();
-        self.str_from_raw_parts(a, len)
+        if self.has_range(a, len) {
+            str::from_utf8(self.buffer_from_raw_parts(a, len)).unwrap_or("")
+        } else {
+            ""
+        }
     }
 
     unsafe fn str_from_raw_parts(&self, addr: usize, len: usize) -> &str {
-- 
2.43.0


From 2de5a7bd8579ff61c13f70d8565d037d8e830a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:26 +0000
Subject: [PATCH 10/32] fix: (xtime) and _postpone refuse tokens of no word

---
 src/core.rs  | 8 ++++++--
 src/tools.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 2b4c596..58dccb2 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -1914,8 +1914,12 @@ pub trait Core: Sized {
         // --+------+---------+-----------+--
         // Because B comes after A, the xt of A is valid during execution of B.
         let xt = self.s_stack().pop() as usize;
-        let compilation_semantics = self.wordlist()[xt].compilation_semantics;
-        compilation_semantics(self, xt);
+        if xt < self.wordlist().len() {
+            let compilation_semantics = self.wordlist()[xt].compilation_semantics;
+            compilation_semantics(self, xt);
+        } else {
+            self.abort_with(INVALID_NUMERIC_ARGUMENT);
+        }
     }
 
     fn compile_token(&mut self) {
diff --git a/src/tools.rs b/src/tools.rs
index 21ee4d2..acfc9d0 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -1,5 +1,6 @@
 //! Tools to inspect the rtforth system
 
+use exception::INVALID_NUMERIC_ARGUMENT;
 use memory::Memory;
 use output::Output;
 use std::fmt::Write;
@@ -151,7 +152,11 @@ pub trait Tools: Output {
     /// ```
     fn set_execution_times(&mut self) {
         let (t0, xt) = self.s_stack().pop2();
-        let t = (self.system_time_ns() / 1_000) as usize - t0 as usize;
+        if xt as usize >= self.wordlist().len() {
+            self.abort_with(INVALID_NUMERIC_ARGUMENT);
+            return;
+        }
+        let t = ((self.system_time_ns() / 1_000) as usize).wrapping_sub(t0 as usize);
         let word = &mut self.wordlist_mut()[xt as usize];
         if word.min_execution_time != 0 {
             word.min_execution_time = word.min_execution_time.min(t);
-- 
2.43.0


From c2a759aead0522f04be76527e2db46b761cd047c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:11 +0000
Subject: [PATCH 11/32] fix: running out of data space raises an exception
 instead of a panic

---
 src/core.rs   | 76 +++++++++++++++++++++++++++++++++++++++++++--------
 src/float.rs  |  6 ++--
 src/memory.rs | 29 ++++++++++++++++----
 3 files changed, 91 insertions(+), 20 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 58dccb2..7e199ff 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -4,7 +4,7 @@
 
 extern crate libc;
 use exception::{
-    self, Exception, ABORT, CONTROL_STRUCTURE_MISMATCH, DIVISION_BY_ZERO,
+    self, Exception, ABORT, CONTROL_STRUCTURE_MISMATCH, DICTIONARY_OVERFLOW, DIVISION_BY_ZERO,
     FLOATING_POINT_STACK_OVERFLOW, FLOATING_POINT_STACK_UNDERFLOW,
     INTERPRETING_A_COMPILE_ONLY_WORD, INVALID_MEMORY_ADDRESS, INVALID_NUMERIC_ARGUMENT,
     RETURN_STACK_OVERFLOW, RETURN_STACK_UNDERFLOW, STACK_OVERFLOW, STACK_UNDERFLOW, UNDEFINED_WORD,
@@ -1917,6 +1917,7 @@ pub trait Core: Sized {
         if xt < self.wordlist().len() {
             let compilation_semantics = self.wordlist()[xt].compilation_semantics;
             compilation_semantics(self, xt);
+            self.check_space();
         } else {
             self.abort_with(INVALID_NUMERIC_ARGUMENT);
         }
@@ -2038,7 +2039,11 @@ pub trait Core: Sized {
     /// Store token in counted string at `c-addr`.`
     fn store_token(&mut self) {
         let c_addr = self.s_stack().pop() as usize;
-        if self.data_space().start() <= c_addr {
+        let len = self.last_token().as_ref().map_or(0, |t| t.len().min(255));
+        if self
+            .data_space()
+            .has_range(c_addr, len + mem::size_of::<usize>())
+        {
             match self.last_token().take() {
                 Some(mut t) => {
                     self.data_space().put_cstr(&t, c_addr);
@@ -2046,11 +2051,7 @@ pub trait Core: Sized {
                     self.set_last_token(t);
                 }
                 None => unsafe {
-                    if c_addr < self.data_space().limit() {
-                        self.data_space().put_u8(0, c_addr);
-                    } else {
-                        panic!("Error: store_token while space is full.");
-                    }
+                    self.data_space().put_u8(0, c_addr);
                 },
             }
         } else {
@@ -2311,6 +2312,9 @@ pub trait Core: Sized {
         if last_token.is_empty() {
             self.set_last_token(last_token);
             self.abort_with(UNEXPECTED_END_OF_FILE);
+        } else if !self.has_space(last_token.len() + 4 * mem::size_of::<usize>()) {
+            self.set_last_token(last_token);
+            self.abort_with(DICTIONARY_OVERFLOW);
         } else {
             let nfa = self.data_space().compile_str(&last_token);
             self.data_space().align();
@@ -2385,8 +2389,20 @@ pub trait Core: Sized {
     /// ```
     fn marker(&mut self) {
         let x = self.wordlist().last;
+        let len = self.wordlist().len();
+        let here = self.data_space().here();
         self.wordlist_mut().temp_buckets = self.wordlist().buckets;
         self.define(Core::unmark, Core::compile_unmark);
+        if self.last_error().is_some() {
+            return;
+        }
+        if !self.has_space((BUCKET_SIZE + 1) * mem::size_of::<usize>()) {
+            self.wordlist_mut().buckets = self.wordlist().temp_buckets;
+            self.wordlist_mut().truncate(len);
+            self.data_space().truncate(here);
+            self.abort_with(DICTIONARY_OVERFLOW);
+            return;
+        }
         self.data_space().compile_usize(x);
         for i in 0..BUCKET_SIZE {
             let x = self.wordlist().temp_buckets[i];
@@ -2427,11 +2443,9 @@ pub trait Core: Sized {
     /// ```
     fn does(&mut self) {
         let idx = self.references().idx__does;
-        self.s_stack().push(idx as isize);
-        self.compile_comma();
+        self.compile_word(idx);
         let idx = self.references().idx_exit;
-        self.s_stack().push(idx as isize);
-        self.compile_comma();
+        self.compile_word(idx);
     }
 
     fn xdoes(&mut self) {
@@ -2451,6 +2465,9 @@ pub trait Core: Sized {
     fn _does(&mut self) {
         let doer = self.state().instruction_pointer + mem::size_of::<isize>();
         self.data_space().compile_usize(doer);
+        if !self.check_space() {
+            return;
+        }
         let def = self.wordlist().last;
         let word = &mut self.wordlist_mut()[def];
         word.action = Core::xdoes;
@@ -2991,6 +3008,7 @@ pub trait Core: Sized {
     fn compile_comma(&mut self) {
         let v = self.s_stack().pop();
         self.data_space().compile_isize(v as isize);
+        self.check_space();
     }
 
     /// Run-time: ( -- addr )
@@ -3008,7 +3026,19 @@ pub trait Core: Sized {
     /// zero, leave the data-space pointer unchanged.
     fn allot(&mut self) {
         let v = self.s_stack().pop();
-        self.data_space().allot(v);
+        if self.s_stack().underflow() {
+            self.abort_with(STACK_UNDERFLOW);
+            return;
+        }
+        let here = self.data_space().here();
+        let pos = (here as isize).wrapping_add(v) as usize;
+        if self.data_space().set_here(pos).is_err() {
+            if v > 0 {
+                self.abort_with(DICTIONARY_OVERFLOW);
+            } else {
+                self.abort_with(INVALID_MEMORY_ADDRESS);
+            }
+        }
     }
 
     /// Run-time: ( addr -- a-addr )
@@ -3036,6 +3066,7 @@ pub trait Core: Sized {
     fn comma(&mut self) {
         let v = self.s_stack().pop();
         self.data_space().compile_isize(v as isize);
+        self.check_space();
     }
 
     fn p_to_r(&mut self) {
@@ -3108,6 +3139,27 @@ pub trait Core: Sized {
             self.abort_with(FLOATING_POINT_STACK_OVERFLOW);
         } else if self.f_stack().underflow() {
             self.abort_with(FLOATING_POINT_STACK_UNDERFLOW);
+        } else {
+            self.check_space();
+        }
+    }
+
+    /// Are there `len` free bytes in the data space?
+    fn has_space(&mut self, len: usize) -> bool {
+        let here = self.data_space().here();
+        self.data_space().has_range(here, len)
+    }
+
+    /// Abort if something compiled did not fit in the data space.
+    ///
+    /// Returns true if everything compiled so far has fit.
+    fn check_space(&mut self) -> bool {
+        if self.data_space().overflow() {
+            self.data_space().set_overflow(false);
+            self.abort_with(DICTIONARY_OVERFLOW);
+            false
+        } else {
+            true
         }
     }
 
diff --git a/src/float.rs b/src/float.rs
index 9132710..ce72901 100644
--- a/src/float.rs
+++ b/src/float.rs
@@ -65,8 +65,10 @@ pub trait Float: Core {
     fn fconstant(&mut self) {
         let v = self.f_stack().pop();
         self.define(Float::p_fconst, Core::compile_fconst);
-        self.data_space().align_f64();
-        self.data_space().compile_f64(v);
+        if self.last_error().is_none() {
+            self.data_space().align_f64();
+            self.data_space().compile_f64(v);
+        }
     }
 
     /// Run-time: ( a-addr1 -- a-addr2 )
diff --git a/src/memory.rs b/src/memory.rs
index e74e44a..c494500 100644
--- a/src/memory.rs
+++ b/src/memory.rs
@@ -24,6 +24,7 @@ pub struct DataSpace {
     layout: Layout,
     cap: usize,
     len: usize,
+    overflow: bool,
     marker: marker::PhantomData<SystemVariables>,
 }
 
@@ -47,6 +48,7 @@ impl DataSpace {
             layout,
             cap,
             len: mem::size_of::<SystemVariables>(),
+            overflow: false,
             marker: marker::PhantomData,
         };
         result.system_variables_mut().null = 0;
@@ -100,6 +102,14 @@ impl Memory for DataSpace {
             Err(INVALID_MEMORY_ADDRESS)
         }
     }
+
+    fn overflow(&self) -> bool {
+        self.overflow
+    }
+
+    fn set_overflow(&mut self, overflow: bool) {
+        self.overflow = overflow;
+    }
 }
 
 pub trait Memory {
@@ -130,6 +140,12 @@ pub trait Memory {
     /// Set next free space.
     fn set_here(&mut self, pos: usize) -> Result<(), Exception>;
 
+    /// Has something been compiled that did not fit in the remaining space?
+    fn overflow(&self) -> bool;
+
+    /// Set or clear the overflow flag.
+    fn set_overflow(&mut self, overflow: bool);
+
     unsafe fn get_u8(&self, addr: usize) -> u8 {
         *(addr as *mut u8)
     }
@@ -187,7 +203,7 @@ pub trait Memory {
             }
             self.allot(mem::size_of::<u8>() as isize);
         } else {
-            panic!("Error: compile_u8 while space is full.");
+            self.set_overflow(true);
         }
     }
 
@@ -203,7 +219,7 @@ pub trait Memory {
             }
             self.allot(mem::size_of::<usize>() as isize);
         } else {
-            panic!("Error: compile_usize while space is full.");
+            self.set_overflow(true);
         }
     }
 
@@ -225,7 +241,7 @@ pub trait Memory {
             }
             self.allot(mem::size_of::<isize>() as isize);
         } else {
-            panic!("Error: compile_isize while space is full.");
+            self.set_overflow(true);
         }
     }
     unsafe fn put_f64(&mut self, v: f64, pos: usize) {
@@ -240,7 +256,7 @@ pub trait Memory {
             }
             self.allot(mem::size_of::<f64>() as isize);
         } else {
-            panic!("Error: compile_f64 while space is full.");
+            self.set_overflow(true);
         }
     }
 
@@ -275,7 +291,8 @@ pub trait Memory {
             }
             here
         } else {
-            panic!("Error: compile_str while space is full.");
+            self.set_overflow(true);
+            here
         }
     }
 
@@ -316,7 +333,7 @@ pub trait Memory {
     }
 
     fn allot(&mut self, v: isize) {
-        let here = (self.here() as isize + v) as usize;
+        let here = (self.here() as isize).wrapping_add(v) as usize;
         self.set_here(here);
     }
 
-- 
2.43.0


From 85fdca2a2ac3e52b1c310fe34cbbf50a75230e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 12/32] fix: an exception without a valid handler ends the
 running program

---
 src/core.rs  | 9 +++++++--
 src/tools.rs | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 7e199ff..107c9ea 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -761,8 +761,8 @@ pub trait Core: Sized {
 
     /// Execute word at position `i`.
     fn execute_word(&mut self, i: usize) {
-        self.state().word_pointer = i;
         if i < self.wordlist().len() {
+            self.state().word_pointer = i;
             (self.wordlist()[i].action())(self);
         } else {
             self.abort_with(UNSUPPORTED_OPERATION);
@@ -3277,7 +3277,12 @@ pub trait Core: Sized {
         self.set_error(Some(e));
         let h = self.handler();
         self.state().aborted_word_pointer = self.state().word_pointer;
-        self.execute_word(h);
+        if 0 < h && h < self.wordlist().len() {
+            self.execute_word(h);
+        } else {
+            // Without a handler the rest of the program is not executed.
+            self.state().instruction_pointer = 0;
+        }
     }
 
     /// Abort the inner loop with an exception, reset VM and clears stacks.
diff --git a/src/tools.rs b/src/tools.rs
index acfc9d0..5a9a1e3 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -95,7 +95,7 @@ pub trait Tools: Output {
             }
 
             let xt = self.state().aborted_word_pointer;
-            if xt != 0 {
+            if xt != 0 && xt < self.wordlist().len() {
                 let nfa = self.wordlist()[xt].nfa();
                 let name = unsafe { self.data_space().get_str(nfa) };
                 write!(buf, "{} ", name).unwrap();
-- 
2.43.0


From e0fdd8898c95fbc0323671c61f9cd9b14afe14d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 13/32] fix: a primitive exception handler which fails does not
 recurse forever

---
 src/core.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core.rs b/src/core.rs
index 107c9ea..4a32d69 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -3278,7 +3278,10 @@ pub trait Core: Sized {
         let h = self.handler();
         self.state().aborted_word_pointer = self.state().word_pointer;
         if 0 < h && h < self.wordlist().len() {
+            // An exception raised by a primitive handler is not handled again.
+            self.set_handler(0);
             self.execute_word(h);
+            self.set_handler(h);
         } else {
             // Without a handler the rest of the program is not executed.
             self.state().instruction_pointer = 0;
-- 
2.43.0


From a92bea00cae401c2a8cddc580b2dcd419c828e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 14/32] fix: parsing words cope with a missing or exhausted
 input buffer

---
 src/core.rs   | 30 ++++++++++++++++++------------
 src/output.rs | 18 ++++++++----------
 2 files changed, 26 insertions(+), 22 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 4a32d69..c35fcfc 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -1700,7 +1700,7 @@ pub trait Core: Sized {
 
     /// Copy content of `s` to `input_buffer` and set `source_index` to 0.
     fn set_source(&mut self, s: &str) {
-        let mut buffer = self.input_buffer().take().expect("input buffer");
+        let mut buffer = self.input_buffer().take().unwrap_or_default();
         buffer.clear();
         buffer.push_str(s);
         self.state().source_index = 0;
@@ -1709,7 +1709,7 @@ pub trait Core: Sized {
 
     /// Push content of `s` to `input_buffer`.
     fn push_source(&mut self, s: &str) {
-        let mut buffer = self.input_buffer().take().expect("input buffer");
+        let mut buffer = self.input_buffer().take().unwrap_or_default();
         buffer.push_str(s);
         self.set_input_buffer(buffer);
     }
@@ -1721,8 +1721,7 @@ pub trait Core: Sized {
         let mut last_token = self.last_token().take().expect("token");
         last_token.clear();
         if let Some(input_buffer) = self.input_buffer().take() {
-            if self.state().source_index < input_buffer.len() {
-                let source = &input_buffer[self.state().source_index..];
+            if let Some(source) = input_buffer.get(self.state().source_index..) {
                 let mut cnt = source.len();
                 let mut char_indices = source.char_indices();
                 loop {
@@ -1790,12 +1789,17 @@ pub trait Core: Sized {
     ///
     /// Parse ccc delimited by the delimiter char.
     fn parse(&mut self) {
-        let input_buffer = self.input_buffer().take().expect("input buffer");
         let v = self.s_stack().pop();
         let mut last_token = self.last_token().take().expect("token");
         last_token.clear();
-        {
-            let source = &input_buffer[self.state().source_index..];
+        let input_buffer = match self.input_buffer().take() {
+            Some(input_buffer) => input_buffer,
+            None => {
+                self.set_last_token(last_token);
+                return;
+            }
+        };
+        if let Some(source) = input_buffer.get(self.state().source_index..) {
             let mut cnt = source.len();
             let mut char_indices = source.char_indices();
             loop {
@@ -1828,17 +1832,19 @@ pub trait Core: Sized {
     ///
     /// Skip all of the delimiter char.
     fn _skip(&mut self) {
-        let input_buffer = self.input_buffer().take().expect("input buffer");
         let v = self.s_stack().pop();
-        {
-            let source = &input_buffer[self.state().source_index..];
+        let input_buffer = match self.input_buffer().take() {
+            Some(input_buffer) => input_buffer,
+            None => return,
+        };
+        if let Some(source) = input_buffer.get(self.state().source_index..) {
             let mut cnt = 0;
             let mut char_indices = source.char_indices();
             loop {
                 match char_indices.next() {
-                    Some((idx, ch)) => {
+                    Some((_, ch)) => {
                         if ch as isize == v {
-                            cnt += 1;
+                            cnt += ch.len_utf8();
                         } else {
                             break;
                         }
diff --git a/src/output.rs b/src/output.rs
index e23ea61..7a22a59 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -86,23 +86,21 @@ pub trait Output: Core {
     /// Return c-addr and u describing a string consisting of the characters ccc. A program
     /// shall not alter the returned string.
     fn s_quote(&mut self) {
-        let input_buffer = self.input_buffer().take().unwrap();
+        let input_buffer = self.input_buffer().take().unwrap_or_default();
         {
-            let source = &input_buffer[self.state().source_index + 1..input_buffer.len()];
-            let s = match source.find('"') {
-                Some(n) => {
-                    &input_buffer[self.state().source_index + 1..self.state().source_index + 1 + n]
-                }
-                None => source,
+            // ignore the space following S"
+            let start = self.state().source_index.saturating_add(1);
+            let source = input_buffer.get(start..).unwrap_or("");
+            let (s, cnt) = match source.find('"') {
+                Some(n) => (&source[..n], n + 1),
+                None => (source, source.len()),
             };
-            let cnt = s.len();
             let idx = self.references().idx_s_quote;
             let compilation_semantics = self.wordlist()[idx].compilation_semantics;
             compilation_semantics(self, idx);
             self.data_space().compile_str(s);
             self.data_space().align();
-            // ignore the space following S"
-            self.state().source_index = self.state().source_index + 1 + cnt as usize + 1;
+            self.state().source_index = (start + cnt).min(input_buffer.len());
         }
         self.set_input_buffer(input_buffer);
     }
-- 
2.43.0


From 8cbae2ab40e5b8d20d1dc90ea3f66dfd9a678f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:54 +0000
Subject: [PATCH 15/32] fix: a float exponent beyond 32 bits is not truncated

---
 src/core.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core.rs b/src/core.rs
index c35fcfc..cb7644b 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -2266,9 +2266,13 @@ pub trait Core: Sized {
             if self.references().idx_flit == 0 {
                 self.set_error(Some(UNSUPPORTED_OPERATION));
             } else {
+                let exponent = exponent_sign
+                    .wrapping_mul(exponent_part)
+                    .max(i32::min_value() as isize)
+                    .min(i32::max_value() as isize);
                 let value = (significand_sign as f64)
                     * (integer_part as f64 + fraction_part)
-                    * ((10.0f64).powi((exponent_sign.wrapping_mul(exponent_part)) as i32) as f64);
+                    * (10.0f64).powi(exponent as i32);
                 if self.state().is_compiling {
                     self.compile_float(value);
                 } else {
-- 
2.43.0


From ec0427745d4cf5de9269a424e1da31d2eba8e3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 16/32] fix: a base prefix without digits is not a number

---
 src/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index cd15872..2f48835 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -75,6 +75,10 @@ pub fn uint_in_base(input: &[u8], base: isize) -> IResult<isize> {
         value = value.wrapping_mul(base).wrapping_add(d);
         len = len + 1;
     }
+    if len == 0 {
+        // A base prefix or a sign alone is not a number.
+        return IResult::Err(RESULT_OUT_OF_RANGE);
+    }
     bytes = &bytes[len..];
     IResult::Done(bytes, value)
 }
-- 
2.43.0


From 3e3b5d7c6a6ef8f0bb7400f0d8a87e6b731d31b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:24 +0000
Subject: [PATCH 17/32] fix: unresolved gotos of an abandoned definition do not
 reject later ones

---
 src/core.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core.rs b/src/core.rs
index cb7644b..245450b 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -1431,6 +1431,9 @@ pub trait Core: Sized {
                 // Resolve forward references.
                 let mut p = self.labels()[n];
                 loop {
+                    if !self.data_space().has_range(p, mem::size_of::<usize>()) {
+                        break;
+                    }
                     let last = unsafe { self.data_space().get_usize(p) };
                     unsafe {
                         self.data_space().put_isize(here as isize, p as usize);
@@ -3214,6 +3217,8 @@ pub trait Core: Sized {
         self.s_stack().reset();
         self.f_stack().reset();
         self.c_stack().reset();
+        // The definition which refers to unresolved labels is abandoned.
+        self.forward_bitset_mut().clear();
     }
 
     /// ( -- source-id )
-- 
2.43.0


From 433eb0cf59f01cfcd784e7784658a0b2d9060699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:26 +0000
Subject: [PATCH 18/32] fix: pause returns when no task is awake

---
 src/core.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core.rs b/src/core.rs
index 245450b..8a2fa4f 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -3311,7 +3311,8 @@ pub trait Core: Sized {
     /// Pause the current task and resume the next task which is awake.
     fn pause(&mut self) {
         let mut i = self.current_task();
-        loop {
+        // If no task is awake, go on with the current one.
+        for _ in 0..NUM_TASKS {
             i = (i + 1) % NUM_TASKS;
             if self.awake(i) {
                 self.set_current_task(i);
-- 
2.43.0


From a012d7c9de449dc1d73e8151d1e4a59c6df6a654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 19/32] fix: executing a compile-only word while interpreting
 is refused

---
 src/core.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 8a2fa4f..8be3dff 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -2986,8 +2986,17 @@ pub trait Core: Sized {
     /// Remove `xt` from the stack and perform the semantics identified by it.
     /// Other stack effects are due to the word `EXECUTE`d.
     fn execute(&mut self) {
-        let t = self.s_stack().pop();
-        self.execute_word(t as usize);
+        let t = self.s_stack().pop() as usize;
+        let ip = self.state().instruction_pointer;
+        if t < self.wordlist().len()
+            && self.wordlist()[t].is_compile_only()
+            && !self.data_space().has(ip)
+        {
+            // No compiled code is running.
+            self.abort_with(INTERPRETING_A_COMPILE_ONLY_WORD);
+        } else {
+            self.execute_word(t);
+        }
     }
 
     /// Compilation: ( "<spaces>name" -- )
-- 
2.43.0


From 0210429147bb6bfdb2faa8f9be8f34ffc031648b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:29 +0000
Subject: [PATCH 20/32] fix: an absurd field width does not exhaust the memory
 of the host

---
 src/output.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/output.rs b/src/output.rs
index 7a22a59..95a2932 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -1,10 +1,15 @@
 //! Words output to console
 
 use core::Core;
-use exception::{INVALID_MEMORY_ADDRESS, STACK_UNDERFLOW, UNSUPPORTED_OPERATION};
+use exception::{
+    INVALID_MEMORY_ADDRESS, INVALID_NUMERIC_ARGUMENT, STACK_UNDERFLOW, UNSUPPORTED_OPERATION,
+};
 use memory::Memory;
 use std::fmt::Write;
 
+// Widest field of numeric output.
+const MAX_FIELD_WIDTH: isize = 0x1_0000;
+
 /// Types that can output to console.
 pub trait Output: Core {
     /// Add output primitives.
@@ -140,6 +145,14 @@ pub trait Output: Core {
         let base = unsafe { self.data_space().get_isize(base_addr) };
         let mut valid_base = true;
         let (n1, n2) = self.s_stack().pop2();
+        if self.s_stack().underflow() {
+            self.abort_with(STACK_UNDERFLOW);
+            return;
+        }
+        if n2 > MAX_FIELD_WIDTH {
+            self.abort_with(INVALID_NUMERIC_ARGUMENT);
+            return;
+        }
         if let Some(mut buf) = self.output_buffer().take() {
             self.hold_buffer().clear();
             match base {
@@ -181,6 +194,14 @@ pub trait Output: Core {
     fn fdot_r(&mut self) {
         let r = self.f_stack().pop();
         let (n1, n2) = self.s_stack().pop2();
+        if self.s_stack().underflow() {
+            self.abort_with(STACK_UNDERFLOW);
+            return;
+        }
+        if n1 > MAX_FIELD_WIDTH {
+            self.abort_with(INVALID_NUMERIC_ARGUMENT);
+            return;
+        }
         if let Some(mut buf) = self.output_buffer().take() {
             self.hold_buffer().clear();
             match n2 {
-- 
2.43.0


From aa07868ee226b4f093c5d20f75187383276a0144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 21/32] fix: an exception while loading a file does not break
 later includes

---
 core.fth    | 16 ++++++++++------
 src/core.rs |  4 ++++
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/core.fth b/core.fth
index 7bf20b7..b974e32 100644
--- a/core.fth
+++ b/core.fth
@@ -101,20 +101,25 @@ defer save-input   ' _save-input  ' save-input  defer!
 defer restore-input   ' _restore-input  ' restore-input  defer!
 
 \ Stack to save & restore source
-\ content: | capacity | count=N | source-idx1 | source-id1 | ... | source_idxN | source-idN |
+\ content: | capacity | count=N | source-idx1 | source-id1 | line#1 | ... | source_idxN | source-idN | line#N |
 \ NOTE: multitasking is not considered here.
-create src-stack 16 , 0 , 16 2* cells allot
+create src-stack 16 , 0 , 16 3 * cells allot
+variable load-line#
+: src-entry ( count -- a-addr )   1- 3 * 2 + cells src-stack + ;
 : save-source
+    \ Nothing is being loaded, forget the sources abandoned by an exception.
+    source-id 0= if  0 src-stack cell+ !  then
     source-id source-idx
     src-stack 2@ over > if
       ( src-id src-idx count ) 1+ dup src-stack cell+ !
-      ( src-id src-idx count+1 ) 2* cells src-stack +  2!
+      ( src-id src-idx count+1 ) src-entry
+      load-line# @  over 2 cells + !  2!
     else abort then ;
 : restore-source
     src-stack 2@ drop  dup 0 > if
       ( count ) dup 1- src-stack cell+ !
-      ( count ) 2* cells src-stack + 2@
-      source-idx!  source-id!
+      ( count ) src-entry  dup 2 cells + @ load-line# !
+      2@ source-idx!  source-id!
     else abort then ;
 : evaluate-input
     begin parse-word
@@ -124,7 +129,6 @@ create src-stack 16 , 0 , 16 2* cells allot
       ?stacks else interpret-token ?stacks then
     repeat ;
 \ Multitasking is not considered here.
-variable load-line#
 : load-source-file ( -- )
     begin
       source-id load-line
diff --git a/src/core.rs b/src/core.rs
index 8be3dff..8dec985 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -3286,6 +3286,10 @@ pub trait Core: Sized {
     fn reset(&mut self) {
         self.r_stack().reset();
         self.set_source_id(0);
+        // Input comes from the user again, close the sources being loaded.
+        for source in self.sources_mut().iter_mut() {
+            *source = None;
+        }
         if let Some(ref mut buf) = *self.input_buffer() {
             buf.clear()
         }
-- 
2.43.0


From 7db275614278ebb47e9150a70843ae3578cf409c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:42 +0000
Subject: [PATCH 22/32] fix: the handler of an exception raised by an
 interpreted word runs at once

---
 src/core.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 8dec985..770c47b 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -2081,17 +2081,15 @@ pub trait Core: Sized {
             }
             if self.state().is_compiling {
                 self.compile_token();
-                if self.last_error().is_some() {
-                    break;
-                }
             } else {
                 self.interpret_token();
-                if self.last_error().is_some() {
-                    break;
-                }
             }
+            // When the token raised an exception, its handler runs here.
             self.run();
-            self.check_stacks();
+            if self.last_error().is_none() {
+                self.check_stacks();
+                self.run();
+            }
             if self.last_error().is_some() {
                 break;
             }
-- 
2.43.0


From 3f87c0cf9d51eb05db9ee80d6a727de3e0a99838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:10 +0000
Subject: [PATCH 23/32] fix: interpreting interpret-token does not overflow the
 host's stack

---
 src/core.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core.rs b/src/core.rs
index 770c47b..686b30c 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -684,7 +684,8 @@ pub trait Core: Sized {
         self.add_primitive(".token", Core::dot_token);
         self.add_primitive("!token", Core::store_token);
         self.add_primitive("compile-token", Core::compile_token);
-        self.add_primitive("interpret-token", Core::interpret_token);
+        // Interpreted, it would interpret itself again and again.
+        self.add_compile_only("interpret-token", Core::interpret_token);
         self.add_primitive("source-id", Core::p_source_id);
         self.add_primitive("source-id!", Core::p_set_source_id);
         self.add_primitive("source-idx", Core::p_source_idx);
-- 
2.43.0


From e99446ff2d55c735fed046c45a6d8be9acd41921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:29 +0000
Subject: [PATCH 24/32] fix: an exception does not leave a dictionary overflow
 to be reported later

---
 src/core.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core.rs b/src/core.rs
index 686b30c..7f11fee 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -3301,6 +3301,7 @@ pub trait Core: Sized {
     /// Abort the inner loop with an exception, reset VM and clears stacks.
     fn abort_with(&mut self, e: Exception) {
         self.clear_stacks();
+        self.data_space().set_overflow(false);
         self.set_error(Some(e));
         let h = self.handler();
         self.state().aborted_word_pointer = self.state().word_pointer;
-- 
2.43.0


From ac4f5b4cbe8f0743486579349efaee5b63908bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:43 +0000
Subject: [PATCH 25/32] fix: activating a task does not close the file being
 loaded

---
 src/core.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 7f11fee..3b6a236 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -1662,7 +1662,7 @@ pub trait Core: Sized {
             let current_task = self.current_task();
             let ip = self.state().instruction_pointer;
             self.set_current_task(i);
-            self.reset();
+            self.reset_task();
             self.state().instruction_pointer = ip;
             self.set_current_task(current_task);
             // Return to caller.
@@ -3283,12 +3283,17 @@ pub trait Core: Sized {
     /// Reset VM, do not clear data stack, floating point and control stack.
     /// Called by VM's client upon Quit.
     fn reset(&mut self) {
-        self.r_stack().reset();
-        self.set_source_id(0);
         // Input comes from the user again, close the sources being loaded.
         for source in self.sources_mut().iter_mut() {
             *source = None;
         }
+        self.reset_task();
+    }
+
+    /// Reset the current task.
+    fn reset_task(&mut self) {
+        self.r_stack().reset();
+        self.set_source_id(0);
         if let Some(ref mut buf) = *self.input_buffer() {
             buf.clear()
         }
-- 
2.43.0


From c37f0d2ccd3779e73b459ddb04023a9606a5b856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:44 +0000
Subject: [PATCH 26/32] fix: operator is the identifier of the operator task

---
 core.fth | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core.fth b/core.fth
index b974e32..60fe429 100644
--- a/core.fth
+++ b/core.fth
@@ -76,7 +76,7 @@ variable >in  0 >in !
 : xtime ( t0 xt -- )   2>r r@ execute 2r> (xtime) ;
 
 \ Multitasker
-0 constant operator
+1 constant operator
 : nod   begin pause again ;
 : halt ( n -- )   activate nod ;
 : stop   me suspend pause ;
-- 
2.43.0


From 8bfdd275ef3a6e3f956a716c8a24168ce5e11de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:10 +0000
Subject: [PATCH 27/32] fix: postpone of an immediate word appends its
 execution

The compilation semantics of an immediate word is to perform it. The word was
appended to the definition under construction instead, so that control structure
words could not be postponed and 'postpone [' in 'included' stored a cell at here
and left the state unchanged.
---
 src/core.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 3b6a236..176a98a 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -1898,9 +1898,14 @@ pub trait Core: Sized {
             match self.find(&last_token) {
                 Some(xt) => {
                     self.set_last_token(last_token);
-                    self.compile_integer(xt as isize);
-                    let idx = self.references().idx__postpone;
-                    self.compile_word(idx);
+                    if self.wordlist()[xt].is_immediate() {
+                        // Performing an immediate word is its compilation semantics.
+                        self.compile_word(xt);
+                    } else {
+                        self.compile_integer(xt as isize);
+                        let idx = self.references().idx__postpone;
+                        self.compile_word(idx);
+                    }
                 }
                 None => {
                     self.set_last_token(last_token);
-- 
2.43.0


From 09719c8528cc3ab5539c63e47e292c8661037798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:26 +0000
Subject: [PATCH 28/32] fix: a compiling word that runs out of data space
 raises the exception at once

---
 src/core.rs   | 24 ++++++++++++++++++++++--
 src/output.rs |  9 ++++++++-
 2 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 176a98a..8ad9300 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -1145,6 +1145,7 @@ pub trait Core: Sized {
     fn imm_if(&mut self) {
         let here = self.compile_zero_branch(0);
         self.c_stack().push(Control::If(here));
+        self.check_space();
     }
 
     /// ```
@@ -1179,6 +1180,7 @@ pub trait Core: Sized {
                     .put_isize(here as isize, if_part - mem::size_of::<isize>());
             }
         }
+        self.check_space();
     }
 
     fn imm_then(&mut self) {
@@ -1253,6 +1255,7 @@ pub trait Core: Sized {
             let idx = self.references().idx_drop;
             self.compile_word(idx);
         }
+        self.check_space();
     }
 
     fn imm_endof(&mut self) {
@@ -1273,6 +1276,7 @@ pub trait Core: Sized {
                     .put_isize(here as isize, of_part - mem::size_of::<isize>());
             }
         }
+        self.check_space();
     }
 
     fn imm_endcase(&mut self) {
@@ -1302,6 +1306,7 @@ pub trait Core: Sized {
         if self.c_stack().underflow() {
             self.abort_with(CONTROL_STRUCTURE_MISMATCH);
         }
+        self.check_space();
     }
 
     /// Begin a structure that is terminated by `repeat`, `until`, or `again`. `begin ( -- )`.
@@ -1331,6 +1336,7 @@ pub trait Core: Sized {
     fn imm_while(&mut self) {
         let here = self.compile_zero_branch(0);
         self.c_stack().push(Control::While(here));
+        self.check_space();
     }
 
     /// Terminate a `begin ... while ... repeat` structure. `repeat ( -- )`.
@@ -1353,6 +1359,7 @@ pub trait Core: Sized {
                     .put_isize(here as isize, while_part - mem::size_of::<isize>());
             }
         }
+        self.check_space();
     }
 
     /// Terminate a `begin ... until` structure. `until ( flag -- )`.
@@ -1383,6 +1390,7 @@ pub trait Core: Sized {
         } else {
             self.compile_zero_branch(begin_part);
         }
+        self.check_space();
     }
 
     /// Terminate a `begin ... again` structure. `again ( -- )`.
@@ -1413,6 +1421,7 @@ pub trait Core: Sized {
         } else {
             self.compile_branch(begin_part);
         }
+        self.check_space();
     }
 
     /// Clear labels, `0labels ( -- )`
@@ -1490,6 +1499,7 @@ pub trait Core: Sized {
         } else {
             self.abort_with(INVALID_NUMERIC_ARGUMENT);
         }
+        self.check_space();
     }
 
     /// call ( n -- )
@@ -1537,11 +1547,13 @@ pub trait Core: Sized {
         self.data_space().compile_isize(0);
         let here = self.data_space().here();
         self.c_stack().push(Control::Do(here, here));
+        self.check_space();
     }
 
     fn imm_recurse(&mut self) {
         let last = self.wordlist().len() - 1;
         self.compile_nest(last);
+        self.check_space();
     }
 
     /// Execution: ( -- a-ddr )
@@ -1565,6 +1577,7 @@ pub trait Core: Sized {
         self.data_space().compile_isize(0);
         let here = self.data_space().here();
         self.c_stack().push(Control::Do(here, here));
+        self.check_space();
     }
 
     /// Run-time: ( a-addr -- )
@@ -1623,6 +1636,7 @@ pub trait Core: Sized {
                     .put_isize(here as isize, (do_part - mem::size_of::<isize>()) as usize);
             }
         }
+        self.check_space();
     }
 
     /// Run-time: ( a-addr -- )
@@ -1651,6 +1665,7 @@ pub trait Core: Sized {
                     .put_isize(here as isize, (do_part - mem::size_of::<isize>()) as usize);
             }
         }
+        self.check_space();
     }
 
     fn activate(&mut self) {
@@ -1787,6 +1802,7 @@ pub trait Core: Sized {
         }
         let ch = self.s_stack().pop();
         self.compile_integer(ch);
+        self.check_space();
     }
 
     /// Run-time: ( char "ccc&lt;char&gt;" -- )
@@ -2360,8 +2376,10 @@ pub trait Core: Sized {
             let idx = self.references().idx_exit;
             let compile = self.wordlist()[idx].compilation_semantics;
             compile(self, idx);
-            let def = self.wordlist().last;
-            self.wordlist_mut()[def].set_hidden(false);
+            if self.check_space() {
+                let def = self.wordlist().last;
+                self.wordlist_mut()[def].set_hidden(false);
+            }
         }
         self.left_bracket();
     }
@@ -2463,6 +2481,7 @@ pub trait Core: Sized {
         self.compile_word(idx);
         let idx = self.references().idx_exit;
         self.compile_word(idx);
+        self.check_space();
     }
 
     fn xdoes(&mut self) {
@@ -3025,6 +3044,7 @@ pub trait Core: Sized {
                 }
             }
         }
+        self.check_space();
     }
 
     /// Execution: ( xt -- )
diff --git a/src/output.rs b/src/output.rs
index 95a2932..c8296c7 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -91,6 +91,12 @@ pub trait Output: Core {
     /// Return c-addr and u describing a string consisting of the characters ccc. A program
     /// shall not alter the returned string.
     fn s_quote(&mut self) {
+        self.compile_quoted();
+        self.check_space();
+    }
+
+    /// Parse `ccc` delimited by double-quote. Compile it with the run-time semantics of `S"`.
+    fn compile_quoted(&mut self) {
         let input_buffer = self.input_buffer().take().unwrap_or_default();
         {
             // ignore the space following S"
@@ -119,9 +125,10 @@ pub trait Output: Core {
     ///
     /// Display ccc.
     fn dot_quote(&mut self) {
-        self.s_quote();
+        self.compile_quoted();
         let idx_type = self.references().idx_type;
         self.compile_word(idx_type);
+        self.check_space();
     }
 
     /// Execution: ( "ccc&lt;paren&gt;" -- )
-- 
2.43.0


From 9d4290a7b3ca883f77565e57ad0e3d0410fea3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:17 +0000
Subject: [PATCH 29/32] fix: running a marker whose record was overwritten
 raises an exception instead of a panic

---
 src/core.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core.rs b/src/core.rs
index 8ad9300..b2babaa 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -2402,6 +2402,14 @@ pub trait Core: Sized {
             let w = &self.wordlist()[wp];
             (w.nfa(), w.dfa())
         };
+        for i in 0..BUCKET_SIZE + 1 {
+            // Words recorded by the marker are older than it, unless its record is overwritten.
+            let x = unsafe { self.data_space().get_usize(dfa + i * mem::size_of::<usize>()) };
+            if x >= wp {
+                self.abort_with(INVALID_MEMORY_ADDRESS);
+                return;
+            }
+        }
         let x = unsafe { self.data_space().get_usize(dfa) };
         self.wordlist_mut().last = x;
         for i in 0..BUCKET_SIZE {
-- 
2.43.0


From b7a7e5219fdfb5763e8020056ffaba938a4346a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:33 +0000
Subject: [PATCH 30/32] fix: a float literal whose power of ten is out of range
 was 0, infinite or NaN

---
 src/core.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index b2babaa..893493d 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -2289,13 +2289,18 @@ pub trait Core: Sized {
             if self.references().idx_flit == 0 {
                 self.set_error(Some(UNSUPPORTED_OPERATION));
             } else {
-                let exponent = exponent_sign
-                    .wrapping_mul(exponent_part)
-                    .max(i32::min_value() as isize)
-                    .min(i32::max_value() as isize);
+                // Literals with a larger exponent are infinite, with a smaller one zero.
+                let exponent = exponent_sign.wrapping_mul(exponent_part).max(-400).min(400) as i32;
+                // 10^exponent may be out of range, although the value is not.
+                let half = if exponent.abs() > 300 {
+                    exponent / 2
+                } else {
+                    0
+                };
                 let value = (significand_sign as f64)
                     * (integer_part as f64 + fraction_part)
-                    * (10.0f64).powi(exponent as i32);
+                    * (10.0f64).powi(half)
+                    * (10.0f64).powi(exponent - half);
                 if self.state().is_compiling {
                     self.compile_float(value);
                 } else {
-- 
2.43.0


From 13967d15dc4d059ef082617605c9011d42439801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:09 +0000
Subject: [PATCH 31/32] fix: deg, mm/min and um/msec overflowed or lost
 precision on the way to a representable result

---
 src/units.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/units.rs b/src/units.rs
index c221340..64c3d06 100644
--- a/src/units.rs
+++ b/src/units.rs
@@ -54,7 +54,7 @@ pub trait Units: Core {
 
     fn from_deg(&mut self) {
         let t = self.f_stack().pop();
-        self.f_stack().push(t * PI / 180.0);
+        self.f_stack().push(t * (PI / 180.0));
     }
 
     fn from_rad(&mut self) {
@@ -89,17 +89,17 @@ pub trait Units: Core {
 
     fn mm_per_min(&mut self) {
         let t = self.f_stack().pop();
-        self.f_stack().push(t * MILLIMETER / MINUTE);
+        self.f_stack().push(t * (MILLIMETER / MINUTE));
     }
 
     fn mm_per_sec(&mut self) {
         let t = self.f_stack().pop();
-        self.f_stack().push(t * MILLIMETER / SECOND);
+        self.f_stack().push(t * (MILLIMETER / SECOND));
     }
 
     fn um_per_msec(&mut self) {
         let t = self.f_stack().pop();
-        self.f_stack().push(t * MICROMETER / MILLISECOND);
+        self.f_stack().push(t * (MICROMETER / MILLISECOND));
     }
 
     fn rpm(&mut self) {
-- 
2.43.0


From 81942dbeb4abb22ee3680f5d6b3e3413e96d7a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:48 +0000
Subject: [PATCH 32/32] fix: an execution time of less than a microsecond is
 recorded and listed

---
 src/core.rs  |  4 ++--
 src/tools.rs | 12 ++++--------
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 893493d..509c8aa 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -34,7 +34,7 @@ pub struct Word<Target> {
     doer: usize,
     action: fn(&mut Target),
     pub(crate) compilation_semantics: fn(&mut Target, usize),
-    // Minimum execution time in [ns]
+    // Minimum execution time in [ns], usize::MAX if never measured
     pub(crate) min_execution_time: usize,
     // Maximum execution time in [ns]
     pub(crate) max_execution_time: usize,
@@ -58,7 +58,7 @@ impl<Target> Word<Target> {
             doer: 0,
             action: action,
             compilation_semantics: compilation_semantics,
-            min_execution_time: 0,
+            min_execution_time: usize::MAX,
             max_execution_time: 0,
         }
     }
diff --git a/src/tools.rs b/src/tools.rs
index 5a9a1e3..e6a439b 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -158,11 +158,7 @@ pub trait Tools: Output {
         }
         let t = ((self.system_time_ns() / 1_000) as usize).wrapping_sub(t0 as usize);
         let word = &mut self.wordlist_mut()[xt as usize];
-        if word.min_execution_time != 0 {
-            word.min_execution_time = word.min_execution_time.min(t);
-        } else {
-            word.min_execution_time = t;
-        }
+        word.min_execution_time = word.min_execution_time.min(t);
         word.max_execution_time = word.max_execution_time.max(t);
     }
 
@@ -171,7 +167,7 @@ pub trait Tools: Output {
         if let Some(mut buf) = self.output_buffer().take() {
             let mut counter = 0;
             for w in (1..self.wordlist().len()).rev() {
-                if self.wordlist()[w].min_execution_time > 0 {
+                if self.wordlist()[w].min_execution_time < usize::MAX {
                     counter += 1;
                     if 1 != counter {
                         write!(buf, "|").unwrap();
@@ -190,8 +186,8 @@ pub trait Tools: Output {
     /// Clear measured execution times. `0xtime( -- )`
     fn clear_xtime(&mut self) {
         for w in (1..self.wordlist().len()).rev() {
-            if self.wordlist()[w].min_execution_time > 0 {
-                self.wordlist_mut()[w].min_execution_time = 0;
+            if self.wordlist()[w].min_execution_time < usize::MAX {
+                self.wordlist_mut()[w].min_execution_time = usize::MAX;
                 self.wordlist_mut()[w].max_execution_time = 0;
             }
         }
-- 
2.43.0

