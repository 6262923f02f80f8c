From 635a7ccf87c7362ccecae0949158926c9d042b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:00 +0000
Subject: [PATCH 01/38] fix: write interrupted continued output to its own
 stream

The unfinished output was written to the stream of the interrupting statement.
---
 src/debug.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/debug.cxx b/src/debug.cxx
index ce7ed2a..bb11105 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -922,7 +922,8 @@ void DebugObject_ThreadSpecificData::start(DebugObject& debug_object,
 #endif
     int saved_errno = errno; // The writeto below changes errno.
     // And write out what is in the buffer till now.
-    std::ostream* target_os = (channel_set.mask & cerr_cf) ? &std::cerr : nullptr;
+    // This is output of the interrupted statement, so write it to the target of that statement.
+    std::ostream* target_os = (current->mask & cerr_cf) ? &std::cerr : nullptr;
     current->buffer.writeto(
         target_os, LIBCWD_TSD, debug_object,
         true, // This thread requests an <unfinished> because of previous, unfinished 'continued' output.
-- 
2.43.0


From 3c9423245ddcdbb3565a6b1dc71c616d94c08176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:00 +0000
Subject: [PATCH 02/38] fix: let every nested statement inherit cerr_cf, not
 only the first one

---
 src/debug.cxx | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/debug.cxx b/src/debug.cxx
index bb11105..b46e3cb 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -960,12 +960,13 @@ void DebugObject_ThreadSpecificData::start(DebugObject& debug_object,
 
     // Indent nested debug output with 4 extra spaces.
     indent += 4;
-
-    // If the previous target was written to cerr, then
-    // write this interrupting output to cerr too.
-    channel_set.mask |= (current->mask & cerr_cf);
   }
 
+  // If the previous target was written to cerr, then
+  // write this interrupting output to cerr too.
+  // MT: if current == _private_::WST_dummy_output_state then current->mask is 0.
+  channel_set.mask |= (current->mask & cerr_cf);
+
   // Create a new output state.
   DEBUGDEBUG_CERR("creating new OutputState");
   current = new OutputState(channel_set.mask, channel_set.label, errno); // LEAK5: This allocation + Location.
-- 
2.43.0


From 5cb706511789d5b9035172b9557fc5611bea9cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:00 +0000
Subject: [PATCH 03/38] fix: mark the line of flushed continued output as
 unfinished after nested output

---
 src/debug.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/debug.cxx b/src/debug.cxx
index b46e3cb..a315aff 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -1039,8 +1039,8 @@ void DebugObject_ThreadSpecificData::finish(DebugObject& debug_object,
   {
     // Allow a subsequent Dout(dc::continued (or dc::finish), ...).
     current->mask |= continued_expected_maskbit;
-    if ((current->mask & continued_maskbit))
-      unfinished_expected = true;
+    // Also when nested debug output was written while evaluating the arguments of this part.
+    unfinished_expected = true;
     // If the `flush_cf' control flag is set, flush the ostream at every `finish()' though.
     if (debug_object.always_flush_is_on() || (current->mask & flush_cf) != 0)
     {
-- 
2.43.0


From dd7098b1c60d78ffec3c279b7ab7bdcc51bed68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:00 +0000
Subject: [PATCH 04/38] fix: do not write a character of the data in front of
 <continued> when there is no prefix

---
 src/debug.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/debug.cxx b/src/debug.cxx
index a315aff..5506c93 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -56,10 +56,12 @@ class Buffer : public std::stringbuf
   void continued() { unfinished_already_printed_ = false; }
   void write_prefix_to(std::ostream* os)
   {
+    int size = position_ - std::streampos(0);
+    if (size <= 0) // No prefix (noprefix_cf).
+      return;
     streampos_t old_in_pos = this->pubseekoff(0, std::ios_base::cur, std::ios_base::in);
     this->pubseekpos(0, std::ios_base::in);
     os->put(this->sgetc());
-    int size = position_ - std::streampos(0);
     for (int c = 1; c < size; ++c)
       os->put(this->snextc());
     this->pubseekpos(old_in_pos, std::ios_base::in);
-- 
2.43.0


From 9948221bcca3d2b2b88a8226cd1a4ce1bbf4e5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:00 +0000
Subject: [PATCH 05/38] fix: forget about an unterminated line once it is
 terminated or its statement is finished

When nothing was written after terminating the line of another thread, then
it was terminated again by the next statement; and a statement that finished
with nonewline_cf without new data left a pointer to its deleted buffer.
---
 src/debug.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/debug.cxx b/src/debug.cxx
index 5506c93..f0afa63 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -136,6 +136,9 @@ void Buffer::writeto(std::ostream* os, LIBCWD_TSD_PARAM, DebugObject& debug_obje
     }
     else
       locked_os->write("<no newline>\n", 13);
+    // That line has been terminated now.
+    debug_object.unfinished_oss_ = NULL;
+    debug_object.newlineless_tsd_ = NULL;
   }
   DebugString const& color_off = LIBCWD_DO_TSD_MEMBER(debug_object, color_off);
   size_t color_off_size = color_off.size();
@@ -180,6 +183,8 @@ void Buffer::writeto(std::ostream* os, LIBCWD_TSD_PARAM, DebugObject& debug_obje
     else
       debug_object.unfinished_oss_ = this;
   }
+  else if (possible_nonewline_cf && debug_object.unfinished_oss_ == this)
+    debug_object.unfinished_oss_ = NULL; // This statement finished without writing anything more.
   if (locked_mutex)
   {
     __libcwd_tsd.lock_interface_is_locked = false;
-- 
2.43.0


From 928fd0db9df232cb904d4c7d59ebcf286dad8efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:32 +0000
Subject: [PATCH 06/38] fix: do not use the TSD of a thread that exited to
 terminate its line

When a thread exits while its last line is unterminated, the next debug
output of another thread dereferenced the deleted TSD of that thread; and a
new thread whose TSD happened to get the same address was taken for the
thread that wrote the unterminated line.
---
 include/libcwd/DebugObject.h                |  3 ++-
 include/libcwd/private/ThreadSpecificData.h |  7 +++++++
 src/debug.cxx                               | 20 ++++++++++----------
 src/threading.cxx                           |  7 +++++++
 4 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/include/libcwd/DebugObject.h b/include/libcwd/DebugObject.h
index 913b9cc..7624dfc 100644
--- a/include/libcwd/DebugObject.h
+++ b/include/libcwd/DebugObject.h
@@ -130,7 +130,8 @@ class DebugObject
   // Ostream destination and matching external lock, protected as one unit.
 
   Buffer* unfinished_oss_;
-  void const* newlineless_tsd_;
+  unsigned long newlineless_thread_; // The thread that wrote an unterminated line, or zero when there is no such line.
+  char* newlineless_color_off_; // A copy of color_off of that thread, or null. That thread might not exist anymore.
 
  private:
   //-------------------------------------------------------------------------------------------------
diff --git a/include/libcwd/private/ThreadSpecificData.h b/include/libcwd/private/ThreadSpecificData.h
index a1afdde..e28a29f 100644
--- a/include/libcwd/private/ThreadSpecificData.h
+++ b/include/libcwd/private/ThreadSpecificData.h
@@ -101,6 +101,7 @@ struct ThreadSpecificData
  private:
   bool initialized_ = false;
   bool cleaning_up_ = false;
+  unsigned long const thread_number_ = next_thread_number();
 
   //-------------------------------------------------------
   // Static data and methods.
@@ -111,7 +112,13 @@ struct ThreadSpecificData
   // partially initialized object instead of starting a second initialization path.
   static ThreadSpecificData& S_create(ThreadSpecificData& tsd);
 
+  // Return a number that is never zero and never returned before.
+  static unsigned long next_thread_number();
+
  public:
+  // Return a number that uniquely identifies the thread, also after it exited.
+  unsigned long thread_number() const { return thread_number_; }
+
   // Return the TSD object for the calling thread, creating it on first use.
   static ThreadSpecificData& instance();
 };
diff --git a/src/debug.cxx b/src/debug.cxx
index f0afa63..feb34c0 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -117,14 +117,10 @@ void Buffer::writeto(std::ostream* os, LIBCWD_TSD_PARAM, DebugObject& debug_obje
                 "documentation/group__group__destination.html).");
     }
   }
-  if (debug_object.newlineless_tsd_ && debug_object.newlineless_tsd_ != &__libcwd_tsd)
+  if (debug_object.newlineless_thread_ && debug_object.newlineless_thread_ != __libcwd_tsd.thread_number())
   {
-    _private_::ThreadSpecificData const* newlineless_tsd =
-        static_cast<_private_::ThreadSpecificData const*>(debug_object.newlineless_tsd_);
-    DebugString const& color_off = newlineless_tsd->debug_object_array[debug_object.index_]->color_off;
-    size_t color_off_size = color_off.size();
-    if (color_off_size > 0)
-      locked_os->write(color_off.c_str(), color_off_size);
+    if (debug_object.newlineless_color_off_)
+      locked_os->write(debug_object.newlineless_color_off_, strlen(debug_object.newlineless_color_off_));
     if (debug_object.unfinished_oss_)
     {
       if (debug_object.unfinished_oss_ != this)
@@ -138,7 +134,7 @@ void Buffer::writeto(std::ostream* os, LIBCWD_TSD_PARAM, DebugObject& debug_obje
       locked_os->write("<no newline>\n", 13);
     // That line has been terminated now.
     debug_object.unfinished_oss_ = NULL;
-    debug_object.newlineless_tsd_ = NULL;
+    debug_object.newlineless_thread_ = 0;
   }
   DebugString const& color_off = LIBCWD_DO_TSD_MEMBER(debug_object, color_off);
   size_t color_off_size = color_off.size();
@@ -173,11 +169,13 @@ void Buffer::writeto(std::ostream* os, LIBCWD_TSD_PARAM, DebugObject& debug_obje
   if (ends_on_newline)
   {
     debug_object.unfinished_oss_ = NULL;
-    debug_object.newlineless_tsd_ = NULL;
+    debug_object.newlineless_thread_ = 0;
   }
   else if (curlen > 0)
   {
-    debug_object.newlineless_tsd_ = &__libcwd_tsd;
+    debug_object.newlineless_thread_ = __libcwd_tsd.thread_number();
+    free(debug_object.newlineless_color_off_);
+    debug_object.newlineless_color_off_ = color_off_size > 0 ? strdup(color_off.c_str()) : NULL;
     if (possible_nonewline_cf)
       debug_object.unfinished_oss_ = NULL;
     else
@@ -1213,6 +1211,8 @@ bool DebugObject::NS_init(LIBCWD_TSD_PARAM)
   being_initialized_ = true;
 
   unfinished_oss_ = NULL;
+  newlineless_thread_ = 0;
+  newlineless_color_off_ = NULL;
 
 #if CWDEBUG_DEBUG
   if (!WST_debug_object_init_magic)
diff --git a/src/threading.cxx b/src/threading.cxx
index eb005ce..08ccd44 100644
--- a/src/threading.cxx
+++ b/src/threading.cxx
@@ -93,6 +93,13 @@ ThreadSpecificData& ThreadSpecificData::S_create(ThreadSpecificData& real_tsd)
   return real_tsd;
 }
 
+//static
+unsigned long ThreadSpecificData::next_thread_number()
+{
+  static std::atomic<unsigned long> last_thread_number;
+  return ++last_thread_number;
+}
+
 // Destroy this TSD and release any initialized per-thread libcwd state.
 //
 // Worker-thread objects reach this destructor from TSD_cleanup_guard at thread exit. The cleanup routine is
-- 
2.43.0


From e7d1441afd2a3a5e0a280dc05c6f8cf388a95b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:51 +0000
Subject: [PATCH 07/38] fix: do not turn channels on by default whose label is
 a prefix of WARNING

---
 src/debug.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/debug.cxx b/src/debug.cxx
index feb34c0..af510ae 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -519,7 +519,7 @@ void DebugChannels::initialize_channel(Channel& channel, char const* label, LIBC
   channel.initialize(channels_w, label, label_len);
 
   // Turn debug channel "WARNING" on by default.
-  __libcwd_tsd.off_cnt_array[channel.index()] = strncmp(channel.get_label(), "WARNING", label_len) == 0 ? -1 : 0;
+  __libcwd_tsd.off_cnt_array[channel.index()] = strcmp(label, "WARNING") == 0 ? -1 : 0;
 
   if (add_to_channel_list)
   {
-- 
2.43.0


From a918db26acb1ad5ece503cfcf608089b28557b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:51 +0000
Subject: [PATCH 08/38] fix: use the return value of try_lock() of the stream
 lock the right way around

The result of a failed try_lock() was taken for a locked mutex, which was then
unlocked; and a successful try_lock() was taken for a failure and never unlocked.
---
 include/libcwd/DebugObject.inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcwd/DebugObject.inl.h b/include/libcwd/DebugObject.inl.h
index b74f8a9..22b0ca9 100644
--- a/include/libcwd/DebugObject.inl.h
+++ b/include/libcwd/DebugObject.inl.h
@@ -190,7 +190,7 @@ inline bool OstreamState::try_lock_os(std::ostream* os, std::ostream** locked_os
 {
   std::lock_guard<std::mutex> lock(state_mutex_);
   // LOCK ORDER: state_mutex_ -> LockInterfaceBase
-  if (mutex_ && mutex_->try_lock())
+  if (mutex_ && !mutex_->try_lock()) // Lockable::try_lock() returns true when it obtained the lock.
     return false;
   *locked_os_out = os ? os : real_os_;
   *locked_mutex_out = mutex_;
-- 
2.43.0


From b54c78a1f2c6a7377a161cd580808327c86cecd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:40 +0000
Subject: [PATCH 09/38] fix: let strerrno know the error numbers after EDQUOT

ENOMEDIUM up till and including EHWPOISON (for example ECANCELED and
EOWNERDEAD, which are returned by POSIX functions) gave UNKNOWN ERROR.
---
 src/strerrno.cxx | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/strerrno.cxx b/src/strerrno.cxx
index f32a167..ea46d60 100644
--- a/src/strerrno.cxx
+++ b/src/strerrno.cxx
@@ -133,7 +133,18 @@ char const* const strerrno_table_c[] = {
     "ENAVAIL", /* No XENIX semaphores available */
     "EISNAM", /* Is a named type file */
     "EREMOTEIO", /* Remote I/O error */
-    "EDQUOT" /* Quota exceeded */
+    "EDQUOT", /* Quota exceeded */
+    "ENOMEDIUM", /* No medium found */
+    "EMEDIUMTYPE", /* Wrong medium type */
+    "ECANCELED", /* Operation Canceled */
+    "ENOKEY", /* Required key not available */
+    "EKEYEXPIRED", /* Key has expired */
+    "EKEYREVOKED", /* Key has been revoked */
+    "EKEYREJECTED", /* Key was rejected by service */
+    "EOWNERDEAD", /* Owner died */
+    "ENOTRECOVERABLE", /* State not recoverable */
+    "ERFKILL", /* Operation not possible due to RF-kill */
+    "EHWPOISON" /* Memory page has hardware error */
 };
 
 } // namespace
-- 
2.43.0


From 78262c938ac4d29129b99f80d7ee8ff8b20ebb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:51 +0000
Subject: [PATCH 10/38] fix: keep the text after a zero byte in a DebugString

size() counted the zero byte and everything after it, but strncpy
replaced all of that with zeroes.
---
 src/debug.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/debug.cxx b/src/debug.cxx
index af510ae..07290e1 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -726,7 +726,7 @@ void DebugString::NS_internal_init(char const* str, size_t len)
   default_capacity_ = min_capacity;
   str_ = (char*)malloc((default_capacity_ = capacity_ = calculate_capacity(len)) +
                        1); // Add one for the terminating zero. LEAK46
-  strncpy(str_, str, len);
+  memmove(str_, str, len);
   size_ = len;
   str_[size_] = 0;
 }
@@ -753,7 +753,7 @@ void DebugString::internal_assign(char const* str, size_t len)
 {
   if (len > capacity_ || (capacity_ > default_capacity_ && len < default_capacity_))
     str_ = (char*)realloc(str_, (capacity_ = calculate_capacity(len)) + 1);
-  strncpy(str_, str, len);
+  memmove(str_, str, len);
   size_ = len;
   str_[size_] = 0;
 }
@@ -762,7 +762,7 @@ void DebugString::internal_append(char const* str, size_t len)
 {
   if (size_ + len > capacity_ || (capacity_ > default_capacity_ && size_ + len < default_capacity_))
     str_ = (char*)realloc(str_, (capacity_ = calculate_capacity(size_ + len)) + 1);
-  strncpy(str_ + size_, str, len);
+  memmove(str_ + size_, str, len);
   size_ += len;
   str_[size_] = 0;
 }
@@ -772,7 +772,7 @@ void DebugString::internal_prepend(char const* str, size_t len)
   if (size_ + len > capacity_ || (capacity_ > default_capacity_ && size_ + len < default_capacity_))
     str_ = (char*)realloc(str_, (capacity_ = calculate_capacity(size_ + len)) + 1);
   memmove(str_ + len, str_, size_ + 1);
-  strncpy(str_, str, len);
+  memmove(str_, str, len);
   size_ += len;
 }
 
-- 
2.43.0


From 514e6f1426281428d44187d1ad55f4e8b4192d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:17 +0000
Subject: [PATCH 11/38] fix: RcFile::read() no longer remembers
 LIBCWD_RCFILE_NAME of a previous call

The flag stayed set after an override file without keywords, so that a later
read() without LIBCWD_RCFILE_NAME ended the program instead of falling back to
the installed default.
---
 src/utils/rcfile.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils/rcfile.cxx b/src/utils/rcfile.cxx
index cfa1335..4482c12 100644
--- a/src/utils/rcfile.cxx
+++ b/src/utils/rcfile.cxx
@@ -42,10 +42,10 @@ void RcFile::print_delayed_msg(int env_var, std::string const& value) const
 std::string RcFile::determine_rcfile_name()
 {
   // Can be overridden with the environment variable LIBCWD_RCFILE_NAME
-  if (!(rcname_ = getenv("LIBCWD_RCFILE_NAME")))
+  rcname_ = getenv("LIBCWD_RCFILE_NAME");
+  env_set_ = rcname_ != nullptr; // Forget what a previous call of read() left here.
+  if (!rcname_)
     rcname_ = ".libcwdrc"; // Default rcfile name.
-  else
-    env_set_ = true;
   std::string rcfile_name;
   // Does this file exist in the current directory?
   if (S_exists(rcname_))
-- 
2.43.0


From 3027b7a23a140660621258bb9fcc6a53b1e2cf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:50 +0000
Subject: [PATCH 12/38] fix: the rcfile's warnings are shown also when WARNING
 was turned off more than once

channels::dc::warning.on() only undoes one off(); use force_on()/restore(), as
is done for unknown keywords, and turn WARNING on until it is on.
---
 src/utils/rcfile.cxx | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/utils/rcfile.cxx b/src/utils/rcfile.cxx
index 4482c12..5081a80 100644
--- a/src/utils/rcfile.cxx
+++ b/src/utils/rcfile.cxx
@@ -104,13 +104,11 @@ std::string RcFile::determine_rcfile_name()
               "\" and could not read default rcfile \"" << rcfile_name << "\" either!");
         else
         {
-          bool warning_on = channels::dc::warning.is_on();
-          if (!warning_on)
-            channels::dc::warning.on();
+          Channel::OnOffState warning_state;
+          channels::dc::warning.force_on(warning_state, channels::dc::warning.get_label());
           __Dout(dc::warning, "Neither ./" << rcname_ << " nor " << homedir << '/' << rcname_ << " exist.");
           __Dout(dc::warning, "Using default rcfile \"" << rcfile_name << "\".");
-          if (!warning_on)
-            channels::dc::warning.off();
+          channels::dc::warning.restore(warning_state);
         }
       }
     }
@@ -201,7 +199,7 @@ void RcFile::set_all_channels_off(bool warning_on)
 {
   __Dout(dc::rcfile, "Turning all channels" << (warning_on ? ", except WARNING," : "") << " off by default.");
   ForAllDebugChannels(if (debugChannel.is_on()) debugChannel.off());
-  if (warning_on)
+  while (warning_on && !channels::dc::warning.is_on())
     channels::dc::warning.on();
 #if CWDEBUG_LOCATION
   elfutils_on_ = false;
@@ -275,13 +273,11 @@ void RcFile::read()
         {
           if (channels_default_set[rcfiles])
           {
-            bool warning_on = channels::dc::warning.is_on();
-            if (!warning_on)
-              channels::dc::warning.on();
+            Channel::OnOffState warning_state;
+            channels::dc::warning.force_on(warning_state, channels::dc::warning.get_label());
             __Dout(dc::warning, "rcfile: " << name << ':' << lines_read << ": channels_default already set in line "
                                          << channels_default_set[rcfiles] << "!  Entry ignored!");
-            if (!warning_on)
-              channels::dc::warning.off();
+            channels::dc::warning.restore(warning_state);
             continue;
           }
           channels_default_set[rcfiles] = lines_read;
-- 
2.43.0


From b162765a2f57964ea165054823fa7d2ea19f0ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:55 +0000
Subject: [PATCH 13/38] fix: init_thread() forgot the rcfile when a channel
 with a longer label was created

The saved states were looked up by the padded label, which changes when a
longer label is added (for example by a dlopen-ed library).
---
 src/init_functions.cxx | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/init_functions.cxx b/src/init_functions.cxx
index 4c5a344..7b8211b 100644
--- a/src/init_functions.cxx
+++ b/src/init_functions.cxx
@@ -38,6 +38,20 @@ using rcfile_dc_states_type = std::map<std::string, bool>;
  */
 rcfile_dc_states_type rcfile_dc_states;
 
+/**
+ * Returns the key that is used for @a dc_label.
+ *
+ * @internal
+ *
+ * Labels are padded with spaces to the length of the longest label, which changes when
+ * a channel with a longer label is created after the states were saved.
+ */
+std::string label_key(char const* dc_label)
+{
+  std::string key(dc_label);
+  return key.erase(key.find_last_not_of(' ') + 1);
+}
+
 /**
  * Set the default state of debug channel @a dc_label.
  *
@@ -48,7 +62,7 @@ rcfile_dc_states_type rcfile_dc_states;
 void set_state(char const* dc_label, bool is_on)
 {
   std::pair<rcfile_dc_states_type::iterator, bool> res =
-      rcfile_dc_states.insert(rcfile_dc_states_type::value_type(std::string(dc_label), is_on));
+      rcfile_dc_states.insert(rcfile_dc_states_type::value_type(label_key(dc_label), is_on));
   if (!res.second)
     __Dout(dc::warning, "Calling set_state() more than once for the same label!");
   return;
@@ -94,7 +108,7 @@ void save_dc_states()
  */
 bool is_on_in_rcfile(char const* dc_label)
 {
-  rcfile_dc_states_type::const_iterator iter = rcfile_dc_states.find(std::string(dc_label));
+  rcfile_dc_states_type::const_iterator iter = rcfile_dc_states.find(label_key(dc_label));
   if (iter == rcfile_dc_states.end())
   {
     __Dout(dc::warning, "is_on_in_rcfile(\"" << dc_label << "\"): \"" << dc_label << "\" is an unknown label!");
-- 
2.43.0


From 7cda71032aa2e46cc5c90585561eb5357483011f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:43 +0000
Subject: [PATCH 14/38] fix: assigning to a Location the location it was copied
 from no longer frees their path

---
 src/location.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/location.cxx b/src/location.cxx
index 1614c73..7f4fc73 100644
--- a/src/location.cxx
+++ b/src/location.cxx
@@ -193,7 +193,9 @@ Location::Location(Location const& prototype)
 
 Location& Location::operator=(Location const& prototype)
 {
-  if (this != &prototype)
+  // If we own the path that `prototype' refers to then we are already equal, while clear() would free it.
+  bool const own_path_of_prototype = known_ && prototype.known_ && filepath_.is_owner() && filepath_.get() == prototype.filepath_.get();
+  if (this != &prototype && !own_path_of_prototype)
   {
     clear();
     if ((known_ = prototype.known_))
-- 
2.43.0


From 1f34883010bcd8797f7439824dee54f5eaab15a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:35 +0000
Subject: [PATCH 15/38] fix: the registry of object files follows the loader on
 dlopen and dlclose

The number of calls to dlopen and dlclose for a handle does not determine
whether its object file is (un)loaded: it can have been loaded at startup,
with RTLD_NODELETE or be a dependency of another object, RTLD_NOLOAD adds a
reference too, and the dependencies of an object come and go with it.  Other
threads can open and close objects between the real call and the update.
Ask the loader what is loaded instead.
---
 src/dwarf.cxx | 289 +++++++++++++++++---------------------------------
 1 file changed, 100 insertions(+), 189 deletions(-)

diff --git a/src/dwarf.cxx b/src/dwarf.cxx
index 59d4404..b2ef7c6 100644
--- a/src/dwarf.cxx
+++ b/src/dwarf.cxx
@@ -21,6 +21,7 @@
 #include <filesystem>
 #include <limits>
 #include <map>
+#include <set>
 #include <string>
 #include <dlfcn.h>
 #include <dwarf.h>
@@ -179,24 +180,31 @@ class ObjectFileRegistry
   struct CallBackData
   {
     std::string executable_path_; // The full path to the current executable.
-    // Used for targeted dlopen-driven object discovery:
-    uintptr_t target_lbase_; // When non-zero, create an ObjectFile only for the DSO with this load base.
-    mutable ObjectFile const* object_file_{}; // Set to the ObjectFile aggregate for target_lbase_.
+    // Used by synchronize:
+    std::set<std::pair<uintptr_t, std::string>> loaded_; // The load base and path of every object file that is loaded.
+    std::set<ObjectFile const*> obsolete_; // The object files that were removed because they are no longer loaded.
 
-    CallBackData(std::string const& executable_path, uintptr_t target_lbase = 0) :
-        executable_path_(executable_path), target_lbase_(target_lbase)
+    CallBackData(std::string const& executable_path) : executable_path_(executable_path) { }
+
+    // dl_iterate_phdr reports an empty name for the main executable.
+    // Use the already resolved /proc/self/exe path in that case so ObjectFileName remains
+    // useful for diagnostics and later public location data.
+    char const* object_filename(dl_phdr_info const* info) const
     {
+      return (info->dlpi_name && info->dlpi_name[0] != '\0') ? info->dlpi_name : executable_path_.c_str();
     }
   };
 
   friend bool ensure_initialization(LIBCWD_TSD_PARAM);
   static void register_initial_object_files();
-  static ObjectFile const* iterate_program_headers(CallBackData const& data);
   static int cb_dl_iterate_phdr(dl_phdr_info* info, size_t size, void* call_back_data);
-  static ObjectFile const* find_registered_object_file(uintptr_t lbase, object_files_ts::wat const& object_files_w);
+  static int cb_collect_loaded(dl_phdr_info* info, size_t size, void* call_back_data);
+  static int cb_synchronize(dl_phdr_info* info, size_t size, void* call_back_data);
+  static ObjectFile const* find_registered_object_file(uintptr_t lbase, char const* path,
+                                                       object_files_ts::wat const& object_files_w);
 
-  // Called from dlopen.
-  static ObjectFile const* register_object_file_at_lbase(uintptr_t lbase);
+  // Called from dlopen and dlclose.
+  static void synchronize();
   // Needed for Location.
   static ObjectFile const* find_object_file(uintptr_t addr);
 };
@@ -431,10 +439,6 @@ class ObjectFileData : public ObjectFileRegistry
                                  uintptr_t lbase);
   static char const* function_symbol_name(Dwarf_Die* func_die);
   void close_dwarf();
-
- public:
-  // Called from dlclose.
-  ObjectFile const* unregister_object_file_ranges(ObjectFile const* self);
 };
 
 class ObjectFile final : public ObjectFileInterface
@@ -442,9 +446,13 @@ class ObjectFile final : public ObjectFileInterface
  private:
   using object_file_data_ts = threadsafe::Unlocked<ObjectFileData, threadsafe::policy::ReadWrite<AIReadWriteMutex>>;
   mutable object_file_data_ts object_file_data_; // Thread-safe storage wrapper for ObjectFile instances.
+  std::string const loaded_path_; // The path as reported by the loader.
 
  public:
-  ObjectFile(uintptr_t lbase, char const* filename) : ObjectFileInterface(lbase), object_file_data_(filename, lbase) { }
+  ObjectFile(uintptr_t lbase, char const* filename) :
+      ObjectFileInterface(lbase), object_file_data_(filename, lbase), loaded_path_(filename)
+  {
+  }
 
   ObjectFile(ObjectFile const&) = delete;
   ObjectFile& operator=(ObjectFile const&) = delete;
@@ -452,8 +460,7 @@ class ObjectFile final : public ObjectFileInterface
   // Ensure that the symbols of this ObjectFile have been loaded.
   void realize_symbols() const;
 
-  // Only use this to construct a wat or rat object (used in dlclose)!
-  object_file_data_ts& unlocked_data() const { return object_file_data_; }
+  std::string const& loaded_path() const { return loaded_path_; }
 
   ObjectFileName const& get_object_file() const override
   {
@@ -462,9 +469,6 @@ class ObjectFile final : public ObjectFileInterface
   }
 
   SymbolRangeInterface const* find_symbol(uintptr_t addr) const override;
-
-  // Called from dlopen.
-  object_file_data_ts::wat write_locked_data() const { return object_file_data_ts::wat{object_file_data_}; }
 };
 
 //static
@@ -719,7 +723,7 @@ void ObjectFileRegistry::register_initial_object_files()
   //
   // Start a new scope for the write lock.
   {
-    CallBackData const data{current_executable_path()};
+    CallBackData data{current_executable_path()};
 
     // This is the initial population pass for the dwarf object/segment cache.
     // Even if dlopen is called first, that still will first call this function.
@@ -729,7 +733,8 @@ void ObjectFileRegistry::register_initial_object_files()
     if (!statically_linked)
     {
       // Iterate over all currently loaded object files and create new ObjectFile's for them.
-      iterate_program_headers(data);
+      // Calls the function cb_dl_iterate_phdr once for each object.
+      dl_iterate_phdr(cb_dl_iterate_phdr, &data);
     }
 
     // Relaxed is OK: we get here from the main thread before any other thread (that
@@ -738,38 +743,12 @@ void ObjectFileRegistry::register_initial_object_files()
   } // Unlock object_files_map().
 }
 
-//static
-ObjectFile const* ObjectFileRegistry::iterate_program_headers(CallBackData const& data)
-{
-  // From https://man7.org/linux/man-pages/man3/dl_iterate_phdr.3.html:
-  //
-  // The dl_iterate_phdr() function walks through the list of an application's shared objects and
-  // calls the function cb_dl_iterate_phdr once for each object, until either all shared objects
-  // have been processed or cb_dl_iterate_phdr returns a nonzero value.
-  //
-  // A non-zero data.target_lbase_ makes the callback stop after the matching object;
-  // zero means enumerate all currently loaded objects.
-  //
-  dl_iterate_phdr(cb_dl_iterate_phdr, const_cast<CallBackData*>(&data));
-  return data.object_file_;
-}
-
 //static
 int ObjectFileRegistry::cb_dl_iterate_phdr(dl_phdr_info* info, size_t /*UNUSED*/, void* call_back_data)
 {
   CallBackData const* data = static_cast<CallBackData const*>(call_back_data);
   uintptr_t const lbase = static_cast<uintptr_t>(info->dlpi_addr);
-  bool const target_lbase_only = data->target_lbase_ != 0;
-
-  // If this is not the target object; advance to the next.
-  if (target_lbase_only && lbase != data->target_lbase_)
-    return 0;
-
-  // dl_iterate_phdr reports an empty name for the main executable.
-  // Use the already resolved /proc/self/exe path in that case so ObjectFileName remains
-  // useful for diagnostics and later public location data.
-  char const* object_filename =
-      (info->dlpi_name && info->dlpi_name[0] != '\0') ? info->dlpi_name : data->executable_path_.c_str();
+  char const* object_filename = data->object_filename(info);
 
   // A DSO can be discovered through a delayed dlopen registration while an
   // outer dl_iterate_phdr pass is still running.  Avoid constructing and
@@ -778,11 +757,8 @@ int ObjectFileRegistry::cb_dl_iterate_phdr(dl_phdr_info* info, size_t /*UNUSED*/
   {
     object_files_ts::wat object_files_w(object_files_map());
     ScopedTracker scoped_{s_object_files_is_locked_};
-    if (ObjectFile const* existing_object_file = find_registered_object_file(lbase, object_files_w))
-    {
-      data->object_file_ = existing_object_file;
-      return target_lbase_only;
-    }
+    if (find_registered_object_file(lbase, object_filename, object_files_w))
+      return 0;
   }
 
   // Create a new ObjectFileData wrapper.  The wrapper address, not the protected
@@ -823,50 +799,99 @@ int ObjectFileRegistry::cb_dl_iterate_phdr(dl_phdr_info* info, size_t /*UNUSED*/
                                   << (void*)segment_start << '-' << (void*)segment_end
                                   << ") flags=" << flags_to_string(phdr.p_flags));
 
-    // Set data->object_file_ to point to the ObjectFile member of the first PTLoadSegment element of
-    // object_files_map().
     have_pt_load_segment = true;
   }
 
   // If no PTLoadSegment was inserted, then we want to ignore this object file.
-  if (have_pt_load_segment)
-    data->object_file_ = object_file;
-  else
+  if (!have_pt_load_segment)
     delete object_file;
 
-  // Stop iterating iff there was only one target.
-  return target_lbase_only;
+  // Continue with the next object.
+  return 0;
 }
 
 //static
-ObjectFile const* ObjectFileRegistry::find_registered_object_file(uintptr_t lbase,
+ObjectFile const* ObjectFileRegistry::find_registered_object_file(uintptr_t lbase, char const* path,
                                                                   object_files_ts::wat const& object_files_w)
 {
   // The writable map is keyed by PT_LOAD end address and can contain multiple
   // segments for the same object file.  Treat any segment whose owning
-  // ObjectFile has the requested load base as proof that the object was already
-  // registered; this prevents duplicate ObjectFile creation when loader
+  // ObjectFile has the requested load base and path (objects that are linked at a fixed address
+  // all have load base zero) as proof that the object was already registered; this prevents duplicate ObjectFile creation when loader
   // enumeration reports a DSO that was discovered through an earlier path.
   for (auto const& [segment_end, segment] : *object_files_w)
   {
-    if (segment.object_file()->get_lbase() == lbase)
+    if (segment.object_file()->get_lbase() == lbase && segment.object_file()->loaded_path() == path)
       return segment.object_file();
   }
   return nullptr;
 }
 
 //static
-ObjectFile const* ObjectFileRegistry::register_object_file_at_lbase(uintptr_t lbase)
+int ObjectFileRegistry::cb_collect_loaded(dl_phdr_info* info, size_t /*UNUSED*/, void* call_back_data)
 {
-  // Locks object_files_map().
-  CallBackData const data{current_executable_path(), lbase};
+  CallBackData* data = static_cast<CallBackData*>(call_back_data);
+  data->loaded_.emplace(static_cast<uintptr_t>(info->dlpi_addr), data->object_filename(info));
+  return 0;
+}
+
+//static
+int ObjectFileRegistry::cb_synchronize(dl_phdr_info* /*UNUSED*/, size_t /*UNUSED*/, void* call_back_data)
+{
+  CallBackData* data = static_cast<CallBackData*>(call_back_data);
 
-  // If this object file was already loaded before, then return that instead of creating a new ObjectFile.
-  ObjectFile const* existing_object_file = find_registered_object_file(lbase, object_files_ts::wat{object_files_map()});
+  // Find out what is loaded.
+  dl_iterate_phdr(cb_collect_loaded, data);
 
-  // Otherwise iterate over all currently loaded object files to find the just dynamically
-  // opened object file, loaded at data.target_lbase_, and create a new ObjectFile for it.
-  return existing_object_file ? existing_object_file : iterate_program_headers(data);
+  // Remove all PTLoadSegment's of object files that were unloaded (possibly something else is loaded at their address now).
+  {
+    object_files_ts::wat object_files_w(object_files_map());
+    ScopedTracker scoped_{s_object_files_is_locked_};
+    for (auto iter = object_files_w->begin(); iter != object_files_w->end();)
+    {
+      ObjectFile const* object_file = iter->second.object_file();
+      if (data->loaded_.count({object_file->get_lbase(), object_file->loaded_path()}) == 0)
+      {
+        __Dout(dc::elfutils, "removing map[" << (void*)iter->first << "] = PTLoadSegment " << iter->second << " for object \""
+                                           << object_file->loaded_path() << "\"");
+        data->obsolete_.insert(object_file);
+        iter = object_files_w->erase(iter);
+      }
+      else
+        ++iter;
+    }
+  }
+
+  // Register the object files that are new.
+  dl_iterate_phdr(cb_dl_iterate_phdr, data);
+
+  // This function only needs to be called once.
+  return 1;
+}
+
+// ObjectFileRegistry::synchronize
+//
+// Bring object_files_map() in line with the object files that are currently loaded, after a call to
+// dlopen or dlclose.  An object file does not necessarily appear with the first dlopen (it can have
+// been loaded before as dependency) nor disappear with the last dlclose of its handle, and its
+// dependencies come and go together with it; only the loader knows.
+//
+//static
+void ObjectFileRegistry::synchronize()
+{
+  // The registration of the initial object files includes everything that was loaded before.
+  if (!s_object_files_initialized_.load(std::memory_order_relaxed))
+    return;
+
+  ForceLoadingDebugOutput scoped_;
+  CallBackData data{current_executable_path()};
+
+  // The list of the loader cannot be changed (by other threads) for the duration of this call.
+  dl_iterate_phdr(cb_synchronize, &data);
+
+  // No longer in use. Free the libdw resources too.
+  for (ObjectFile const* object_file : data.obsolete_)
+    delete object_file;
 }
 
 //static
@@ -937,36 +962,6 @@ ObjectFileData::~ObjectFileData()
   close_dwarf();
 }
 
-ObjectFile const* ObjectFileData::unregister_object_file_ranges(ObjectFile const* self)
-{
-  ObjectFile const* obsolete_object_file = nullptr;
-  // Remove all PTLoadSegment's from object_files_map() that belong to this ObjectFile.
-  // `self` is the stable wrapper pointer stored in each PTLoadSegment; compare
-  // that pointer directly so this write-locked ObjectFile does not need to take
-  // a nested read lock on itself while erasing its ranges.
-  {
-    object_files_ts::wat object_files_w(object_files_map());
-    ScopedTracker scoped_{s_object_files_is_locked_};
-    for (auto iter = object_files_w->begin(); iter != object_files_w->end();)
-    {
-      PTLoadSegment const& segment = iter->second;
-      if (segment.object_file() == self)
-      {
-        __Dout(dc::elfutils, "removing map[" << (void*)iter->first << "] = PTLoadSegment " << segment << " for object "
-                                           << this << " (\"" << object_file_name_.filename() << "\")");
-        obsolete_object_file = segment.object_file(); // Every segment points to the same ObjectFile.
-        iter = object_files_w->erase(iter);
-      }
-      else
-        ++iter;
-    }
-  }
-  // Free libdw resources.
-  close_dwarf();
-  // Return the ObjectFile that is now no longer in use.
-  return obsolete_object_file;
-}
-
 void ObjectFileData::load_dwarf_symbols(uintptr_t lbase, std::string const& debug_info_path)
 {
   open_dwarf(lbase, debug_info_path);
@@ -1286,26 +1281,6 @@ static union
 std::once_flag initialize_real_dlopen;
 std::once_flag initialize_real_dlclose;
 
-struct DynamicLoaderRecord
-{
-  int refcount_;
-  int flags_;
-  ObjectFile const* object_file_;
-
-  DynamicLoaderRecord(ObjectFile const* object_file, int flags) : refcount_(1), flags_(flags), object_file_(object_file)
-  {
-  }
-};
-
-using dynamic_loader_records_ts = threadsafe::Unlocked<std::map<void*, DynamicLoaderRecord, std::less<void*>>,
-                                                       threadsafe::policy::Primitive<std::mutex>>;
-
-dynamic_loader_records_ts& dlopen_map()
-{
-  static dynamic_loader_records_ts* map = new dynamic_loader_records_ts; // Intentionally leaked for late DSO teardown.
-  return *map;
-}
-
 } // namespace
 #endif // HAVE_DLOPEN
 
@@ -1339,49 +1314,11 @@ void* dlopen(char const* name, int flags)
          "libcwd too or when it allocates any memory!");
     return handle;
   }
-  if (handle == nullptr)
-    return handle;
-#ifdef RTLD_NOLOAD
-  if ((flags & RTLD_NOLOAD))
-    return handle;
-#endif
-
-  // If the record already exist, increment DynamicLoaderRecord::refcount_ and return.
-  {
-    dynamic_loader_records_ts::wat dynamic_loader_records_w(dlopen_map());
-    {
-      auto iter = dynamic_loader_records_w->find(handle);
-      if (iter != dynamic_loader_records_w->end())
-      {
-        ++iter->second.refcount_;
-        iter->second.flags_ |= flags;
-        return handle;
-      }
-    }
-  }
 
+  // Even a failed dlopen can have been seen by another thread, while it was loading.
   if (need_register_object_file)
-  {
-    struct link_map* link_map;
-    if (::dlinfo(handle, RTLD_DI_LINKMAP, &link_map) == 0)
-    {
-      uintptr_t const lbase = static_cast<uintptr_t>(link_map->l_addr);
-      ObjectFile const* object_file = nullptr;
-      bool skip_dlopen_map = false;
-      ForceLoadingDebugOutput scoped_;
-      object_file = ObjectFileRegistry::register_object_file_at_lbase(lbase);
-      // NULL would mean that there is no DSO at the `l_addr` that `dlinfo` just returned.
-      // That shouldn't be possible because no thread can have dlclose-d it without already haven gotten the handle that
-      // we didn't even return yet. However, in theory it can also mean that this DSO didn't have any non-empty PT_LOAD
-      // segments, in which case we just want to ignore the DSO.
-      if (!object_file)
-        skip_dlopen_map = true;
-      if (!skip_dlopen_map)
-        dynamic_loader_records_ts::wat(dlopen_map())->emplace(handle, DynamicLoaderRecord{object_file, flags});
-    }
-  }
+    ObjectFileRegistry::synchronize();
 
-  // Unlock dlopen_map and return handle.
   return handle;
 }
 
@@ -1396,34 +1333,8 @@ int dlclose(void* handle)
   if (error != 0 || statically_linked)
     return error;
 
-  ObjectFile const* object_file_to_unregister = nullptr;
-
-  // Remove the corresponding DynamicLoaderRecord from the dlopen_map if this was the last reference.
-  {
-    dynamic_loader_records_ts::wat dynamic_loader_records_w(dlopen_map());
-
-    auto iter = dynamic_loader_records_w->find(handle);
-    if (iter != dynamic_loader_records_w->end() && --iter->second.refcount_ == 0)
-    {
-#ifdef RTLD_NODELETE
-      if (!(iter->second.flags_ & RTLD_NODELETE))
-#endif
-        object_file_to_unregister = iter->second.object_file_;
-      dynamic_loader_records_w->erase(iter);
-    }
-  }
-
-  if (object_file_to_unregister)
-  {
-    ForceLoadingDebugOutput scoped_;
-    ObjectFile const* obsolete_object_file =
-        object_file_to_unregister->write_locked_data()->unregister_object_file_ranges(object_file_to_unregister);
-    // Now that the object_file_data_ts Access object has been destroyed, we can delete the ObjectFile that is no longer
-    // in use.
-    delete obsolete_object_file;
-  }
+  ObjectFileRegistry::synchronize();
 
-  // Unlock dlopen_map and return success.
   return 0;
 }
 
-- 
2.43.0


From 750f1dc400262a8fea883661c634ebb6b3bcb4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:29 +0000
Subject: [PATCH 16/38] fix: lookups by several threads at the same time no
 longer use libdw concurrently

---
 src/dwarf.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dwarf.cxx b/src/dwarf.cxx
index b2ef7c6..67cea0b 100644
--- a/src/dwarf.cxx
+++ b/src/dwarf.cxx
@@ -342,6 +342,10 @@ InlineScopeLookupResult lookup_innermost_inline_scope(Dwarf_Die* cu_die, Dwarf_D
 #ifndef HIDE_FROM_DOXYGEN
 LocationLookupResult SymbolRange::lookup_location(uintptr_t addr, uintptr_t lbase) const
 {
+  // libdw is not thread-safe: even looking something up reads tables into the (shared) Dwarf handle.
+  static constinit std::mutex s_libdw_mutex;
+  std::lock_guard<std::mutex> const lock(s_libdw_mutex);
+
   LocationLookupResult result;
   result.physical_function_name = name_;
 
-- 
2.43.0


From 93b3fcb7c8d3d4cd3c1e447755fd52d48587e77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:02 +0000
Subject: [PATCH 17/38] fix: never read past the end of the name that is
 demangled

---
 include/cwd_demangle.h | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 38bbc16..62103b3 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -347,9 +347,9 @@ class session
 
   char next_peek() const { return (pos_ >= maxpos_) ? 0 : str_[pos_ + 1]; }
 
-  char next() { return (pos_ >= maxpos_) ? 0 : str_[++pos_]; }
+  char next() { return (pos_ >= maxpos_ || str_[pos_] == 0) ? 0 : str_[++pos_]; }
 
-  char eat_current() { return (pos_ > maxpos_) ? 0 : str_[pos_++]; }
+  char eat_current() { return (pos_ > maxpos_ || str_[pos_] == 0) ? 0 : str_[pos_++]; }
 
   void store(int& saved_pos) { saved_pos = pos_; }
 
@@ -1135,7 +1135,7 @@ bool session<Allocator>::decode_operator_name(string_type& output)
       {
         eat_current();
         output += "operator ";
-        if (current() == 'T')
+        if (current() == 'T' && next_peek() == '_' && pos_ + 2 <= maxpos_ && str_[pos_ + 2] == 'I')
         {
           // This is a templated cast operator.
           // It must be of the form "cvT_I...E".
@@ -2164,13 +2164,18 @@ bool session<Allocator>::decode_source_name(string_type& output)
   if (length < 1 || length > 9)
     _GLIBCXX_DEMANGLER_FAILURE;
   while (isdigit(next()))
+  {
+    if (length > (INT_MAX - 9) / 10)
+      _GLIBCXX_DEMANGLER_FAILURE;
     length = 10 * length + current() - '0';
+  }
   char const* ptr = &str_[pos_];
-  if (length > 11 && !strncmp(ptr, "_GLOBAL_", 8) && ptr[9] == 'N' && ptr[8] == ptr[10])
+  if (length > 11 && !strncmp(ptr, "_GLOBAL_", 8) && ptr[8] != 0 && ptr[9] == 'N' && ptr[8] == ptr[10])
   {
     output += "(anonymous namespace)";
-    if ((pos_ += length) > maxpos_ + 1)
-      _GLIBCXX_DEMANGLER_FAILURE;
+    while (length--)
+      if (eat_current() == 0)
+        _GLIBCXX_DEMANGLER_FAILURE;
   }
   else
     while (length--)
-- 
2.43.0


From 5d1ae19d9f039d1ad3b7dbd848e71804371542ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:02 +0000
Subject: [PATCH 18/38] fix: do not recurse for ever when a template argument
 is an expression of itself

---
 include/cwd_demangle.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 62103b3..8fb4cc7 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -818,7 +818,9 @@ bool session<Allocator>::decode_template_param(string_type& output, qualifier_li
   if (current() == 'X')
   {
     eat_current();
+    ++inside_type_; // An expression can contain this template parameter too.
     decode_expression(output);
+    --inside_type_;
   }
   else if (current() == 'L')
     decode_literal(output);
-- 
2.43.0


From 1fd3c833f0fa678503f4ae32c5c45a063d382238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:02 +0000
Subject: [PATCH 19/38] fix: demangle covariant return thunks

---
 include/cwd_demangle.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 8fb4cc7..1ebcdaa 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -2428,6 +2428,7 @@ bool session<Allocator>::decode_special_name(string_type& output)
       _GLIBCXX_DEMANGLER_RETURN;
     case 'c':
       output += "covariant return thunk to ";
+      eat_current();
       if (!decode_call_offset(output) || !decode_call_offset(output) ||
           (pos_ += decode_encoding(output, str_ + pos_, maxpos_ - pos_ + 1, implementation_details_)) < 0)
         _GLIBCXX_DEMANGLER_FAILURE;
-- 
2.43.0


From 38d7fe2a2b6daaf7fc8beea406470ba15519c70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:02 +0000
Subject: [PATCH 20/38] fix: operator~ has one operand

---
 include/cwd_demangle.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 1ebcdaa..52a25fc 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -1089,7 +1089,7 @@ Entry const symbol_name_table_c[39] = {{"aa", "operator&&", binary},       {"na"
                                        {"de", "operator*", unary},         {"ml=", "operator*", binary},
                                        {"mm", "operator--", unary},        {"cl", "operator()", unary},
                                        {"cm", "operator,", binary},        {"an=", "operator&", binary},
-                                       {"co", "operator~", binary},        {"dl", "operator delete", unary},
+                                       {"co", "operator~", unary},        {"dl", "operator delete", unary},
                                        {"ls=", "operator<<", binary},      {"lt", "operator<", binary},
                                        {"as=", "operator", binary},        {"ge", "operator>=", binary},
                                        {"nt", "operator!", unary},         {"rm=", "operator%", binary},
-- 
2.43.0


From f40a8f4b9849f3bf797e467f5fc64ff3f7daf36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:02 +0000
Subject: [PATCH 21/38] fix: a pointer to a const data member is not a pointer
 to member function

---
 include/cwd_demangle.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 52a25fc..3d13c79 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -1792,7 +1792,11 @@ bool session<Allocator>::decode_type_with_postfix(string_type& prefix, string_ty
           break;
         }
         char c = current();
-        if (c == 'F' || c == 'K' || c == 'V' || c == 'r')
+        int function_type_pos = pos_;
+        while (function_type_pos <= maxpos_ && (str_[function_type_pos] == 'K' || str_[function_type_pos] == 'V' ||
+                                                str_[function_type_pos] == 'r'))
+          ++function_type_pos;
+        if (function_type_pos <= maxpos_ && str_[function_type_pos] == 'F')
         // Must be CV-qualifiers and a member function pointer.
         {
           // <Q>M<C><Q2>F<R><B>E	==> R (C::*Q)B Q2
-- 
2.43.0


From ffa22c6ff9744ae91ffec13ccc40cc9b3a40f422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:02 +0000
Subject: [PATCH 22/38] fix: a conversion operator to a standard abbreviation
 lost its name

---
 include/cwd_demangle.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 3d13c79..c1f39c3 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -2230,8 +2230,10 @@ bool session<Allocator>::decode_unqualified_name(string_type& output)
     name_is_template_ = false;
     name_is_cdtor_ = false;
     name_is_conversion_operator_ = false;
-    if (!decode_operator_name(function_name_))
+    string_type operator_name; // Decoding the type of a conversion operator changes function_name_.
+    if (!decode_operator_name(operator_name))
       _GLIBCXX_DEMANGLER_FAILURE;
+    function_name_ = operator_name;
     output += function_name_;
   }
   else if (current() == 'C' || current() == 'D')
-- 
2.43.0


From bc501ed1a36b01171311386ac4ce9433af99602e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:02 +0000
Subject: [PATCH 23/38] fix: a substitution can stand for a nested name that
 starts with a template parameter

---
 include/cwd_demangle.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index c1f39c3..33e4b0b 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -767,6 +767,11 @@ bool session<Allocator>::decode_substitution(string_type& output, qualifier_list
             if (!decode_substitution(output))
               _GLIBCXX_DEMANGLER_FAILURE;
           }
+          else if (current() == 'T')
+          {
+            if (!decode_template_param(output))
+              _GLIBCXX_DEMANGLER_FAILURE;
+          }
           else if (!decode_unqualified_name(output))
             _GLIBCXX_DEMANGLER_FAILURE;
         }
-- 
2.43.0


From 41c22831c4c4145d2d8ffa396da803c1df11ff1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:16 +0000
Subject: [PATCH 24/38] fix: an encoding inside a name shares the substitutions
 of that name

---
 include/cwd_demangle.h | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 33e4b0b..04960e7 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -331,6 +331,8 @@ class session
 
   static int decode_encoding(string_type& output, char const* input, int len,
                              implementation_details const& id = implementation_details());
+  static int decode_encoding(string_type& output, session& demangler_session);
+  bool decode_nested_encoding(string_type& output);
 
   bool decode_type(string_type& output, qualifier_list<Allocator>* qualifiers = NULL)
   {
@@ -905,7 +907,7 @@ bool session<Allocator>::decode_literal(string_type& output)
     if (next() != 'Z')
       _GLIBCXX_DEMANGLER_FAILURE;
     eat_current();
-    if ((pos_ += decode_encoding(output, str_ + pos_, maxpos_ - pos_ + 1, implementation_details_)) < 0)
+    if (!decode_nested_encoding(output))
       _GLIBCXX_DEMANGLER_FAILURE;
   }
   else
@@ -2143,8 +2145,8 @@ bool session<Allocator>::decode_local_name(string_type& output)
   _GLIBCXX_DEMANGLER_DOUT_ENTERING("decode_local_name");
   if (current() != 'Z' || pos_ >= maxpos_)
     _GLIBCXX_DEMANGLER_FAILURE;
-  if ((pos_ += decode_encoding(output, str_ + pos_ + 1, maxpos_ - pos_, implementation_details_) + 1) < 0 ||
-      eat_current() != 'E')
+  eat_current();
+  if (!decode_nested_encoding(output) || eat_current() != 'E')
     _GLIBCXX_DEMANGLER_FAILURE;
   output += "::";
   if (current() == 's')
@@ -2440,8 +2442,7 @@ bool session<Allocator>::decode_special_name(string_type& output)
     case 'c':
       output += "covariant return thunk to ";
       eat_current();
-      if (!decode_call_offset(output) || !decode_call_offset(output) ||
-          (pos_ += decode_encoding(output, str_ + pos_, maxpos_ - pos_ + 1, implementation_details_)) < 0)
+      if (!decode_call_offset(output) || !decode_call_offset(output) || !decode_nested_encoding(output))
         _GLIBCXX_DEMANGLER_FAILURE;
       _GLIBCXX_DEMANGLER_RETURN;
     case 'C': // GNU extension?
@@ -2466,8 +2467,7 @@ bool session<Allocator>::decode_special_name(string_type& output)
         output += "virtual thunk to ";
       else
         output += "non-virtual thunk to ";
-      if (!decode_call_offset(output) ||
-          (pos_ += decode_encoding(output, str_ + pos_, maxpos_ - pos_ + 1, implementation_details_)) < 0)
+      if (!decode_call_offset(output) || !decode_nested_encoding(output))
         _GLIBCXX_DEMANGLER_FAILURE;
       _GLIBCXX_DEMANGLER_RETURN;
   }
@@ -2490,6 +2490,28 @@ int session<Allocator>::decode_encoding(string_type& output, char const* in, int
   if (len <= 0)
     return INT_MIN;
   session<Allocator> demangler_session(in, len, id);
+  return decode_encoding(output, demangler_session);
+}
+
+// Decode the <encoding> at the current position, which is part of a larger name.
+// It has its own template arguments but both use the same substitutions.
+template <typename Allocator>
+bool session<Allocator>::decode_nested_encoding(string_type& output)
+{
+  session<Allocator> nested_session(str_, maxpos_ + 1, implementation_details_);
+  nested_session.pos_ = pos_;
+  nested_session.inside_substitution_ = inside_substitution_;
+  nested_session.substitutions_pos_.swap(substitutions_pos_);
+  if (decode_encoding(output, nested_session) < 0)
+    result_ = false;
+  nested_session.substitutions_pos_.swap(substitutions_pos_);
+  pos_ = nested_session.pos_;
+  return result_;
+}
+
+template <typename Allocator>
+int session<Allocator>::decode_encoding(string_type& output, session<Allocator>& demangler_session)
+{
   string_type nested_name_qualifiers;
   int saved_pos;
   demangler_session.store(saved_pos);
-- 
2.43.0


From 45be0918b11fff67a8edb0483e748dda29229ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:16 +0000
Subject: [PATCH 25/38] fix: the postfix of a type that replaces a template
 parameter or substitution belongs to the whole type

---
 include/cwd_demangle.h | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 04960e7..b909de5 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -377,9 +377,11 @@ class session
   bool decode_number(string_type& output);
   bool decode_operator_name(string_type& output);
   bool decode_source_name(string_type& output);
-  bool decode_substitution(string_type& output, qualifier_list<Allocator>* qualifiers = NULL);
+  bool decode_substitution(string_type& output, qualifier_list<Allocator>* qualifiers = NULL,
+                           string_type* postfix = NULL);
   bool decode_template_args(string_type& output);
-  bool decode_template_param(string_type& output, qualifier_list<Allocator>* qualifiers = NULL);
+  bool decode_template_param(string_type& output, qualifier_list<Allocator>* qualifiers = NULL,
+                             string_type* postfix = NULL);
   bool decode_unqualified_name(string_type& output);
   bool decode_unscoped_name(string_type& output);
   bool decode_non_negative_decimal_integer(string_type& output);
@@ -620,7 +622,8 @@ bool session<Allocator>::decode_class_enum_type(string_type& output)
 //       [<seq-id>]	# Base 36 number
 //
 template <typename Allocator>
-bool session<Allocator>::decode_substitution(string_type& output, qualifier_list<Allocator>* qualifiers)
+bool session<Allocator>::decode_substitution(string_type& output, qualifier_list<Allocator>* qualifiers,
+                                             string_type* postfix)
 {
   _GLIBCXX_DEMANGLER_DOUT_ENTERING("decode_substitution");
   unsigned int value = 0;
@@ -743,10 +746,13 @@ bool session<Allocator>::decode_substitution(string_type& output, qualifier_list
   switch (substitution.type)
   {
     case type:
-      decode_type(output, qualifiers);
+      if (postfix)
+        decode_type_with_postfix(output, *postfix, qualifiers);
+      else
+        decode_type(output, qualifiers);
       break;
     case template_template_param:
-      decode_template_param(output, qualifiers);
+      decode_template_param(output, qualifiers, postfix);
       break;
     case nested_name_prefix:
     case nested_name_template_prefix:
@@ -796,7 +802,8 @@ bool session<Allocator>::decode_substitution(string_type& output, qualifier_list
 //                  ::= T <parameter-2 non-negative number> _
 //
 template <typename Allocator>
-bool session<Allocator>::decode_template_param(string_type& output, qualifier_list<Allocator>* qualifiers)
+bool session<Allocator>::decode_template_param(string_type& output, qualifier_list<Allocator>* qualifiers,
+                                               string_type* postfix)
 {
   _GLIBCXX_DEMANGLER_DOUT_ENTERING("decode_template_parameter");
   if (current() != 'T')
@@ -831,6 +838,8 @@ bool session<Allocator>::decode_template_param(string_type& output, qualifier_li
   }
   else if (current() == 'L')
     decode_literal(output);
+  else if (postfix)
+    decode_type_with_postfix(output, *postfix, qualifiers);
   else
     decode_type(output, qualifiers);
   --inside_substitution_;
@@ -1933,7 +1942,7 @@ bool session<Allocator>::decode_type_with_postfix(string_type& prefix, string_ty
         break;
       }
       case 'T':
-        if (!decode_template_param(prefix, qualifiers))
+        if (!decode_template_param(prefix, qualifiers, &postfix))
         {
           failure = true;
           break;
@@ -1965,7 +1974,7 @@ bool session<Allocator>::decode_type_with_postfix(string_type& prefix, string_ty
         }
         if (str_[pos_ + 1] != 't')
         {
-          if (!decode_substitution(prefix, qualifiers))
+          if (!decode_substitution(prefix, qualifiers, &postfix))
           {
             failure = true;
             break;
-- 
2.43.0


From 7dc7b403ee3c65be20014987e66fa796d859c1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:16 +0000
Subject: [PATCH 26/38] fix: a function type that is not pointed to has no
 empty parentheses, and its qualifiers follow the parameters

---
 include/cwd_demangle.h | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index b909de5..84d24f9 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -1922,7 +1922,6 @@ bool session<Allocator>::decode_type_with_postfix(string_type& prefix, string_ty
         // We do want the space if this pointer is qualified.
         if (return_type_postfix.size() == 0 || (prefix.size() > 0 && *prefix.rbegin() != '*'))
           prefix += ' ';
-        prefix += '(';
         string_type bare_function_type;
         if (!decode_bare_function_type(bare_function_type)
             // substitution: "<B>" (<B> recursive).
@@ -1932,12 +1931,34 @@ bool session<Allocator>::decode_type_with_postfix(string_type& prefix, string_ty
           break;
         }
         add_substitution(start_pos, type); // Substitution: "F<R><B>E".
-        qualifiers->decode_qualifiers(prefix, postfix);
+        string_type qualifiers_prefix;
+        string_type qualifiers_postfix;
+        qualifiers->decode_qualifiers(qualifiers_prefix, qualifiers_postfix);
         // substitution: all qualified types, if any.
-        postfix += ")";
+        // The first cv-qualifiers are those of the function type itself.
+        string_type function_qualifiers;
+        for (char const* cv_qualifier_str : {" const", " volatile", " restrict"})
+        {
+          size_t len = strlen(cv_qualifier_str);
+          if (qualifiers_prefix.compare(0, len, cv_qualifier_str) == 0 &&
+              (qualifiers_prefix.size() == len || strchr(" *&", qualifiers_prefix[len])))
+          {
+            function_qualifiers += cv_qualifier_str;
+            qualifiers_prefix.erase(0, len);
+          }
+        }
+        if (!qualifiers_prefix.empty() && qualifiers_prefix[0] == ' ')
+          qualifiers_prefix.erase(0, 1);
+        if (!qualifiers_prefix.empty() || !qualifiers_postfix.empty())
+        {
+          prefix += '(';
+          prefix += qualifiers_prefix;
+          postfix = qualifiers_postfix + ")" + postfix;
+        }
         if (extern_C)
           postfix += " [extern \"C\"] ";
         postfix += bare_function_type;
+        postfix += function_qualifiers;
         postfix += return_type_postfix;
         break;
       }
-- 
2.43.0


From 4bd5e923c7319d4030093fbb080c0c51120a0d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:19 +0000
Subject: [PATCH 27/38] fix: a template parameter that stands for a function
 type is a substitution too

---
 include/cwd_demangle.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 84d24f9..30251d6 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -1963,6 +1963,15 @@ bool session<Allocator>::decode_type_with_postfix(string_type& prefix, string_ty
         break;
       }
       case 'T':
+      {
+        // A function type is printed, including its qualifiers, by decode_template_param.
+        // Hence the substitution for the <template-param> must be added first.
+        int end_pos = pos_;
+        while (end_pos < maxpos_ && isdigit(str_[end_pos + 1]))
+          ++end_pos;
+        bool const is_template = end_pos + 2 <= maxpos_ && str_[end_pos + 1] == '_' && str_[end_pos + 2] == 'I';
+        if (!recursive_template_param_or_substitution_call && !is_template)
+          add_substitution(start_pos, type);
         if (!decode_template_param(prefix, qualifiers, &postfix))
         {
           failure = true;
@@ -1980,13 +1989,15 @@ bool session<Allocator>::decode_type_with_postfix(string_type& prefix, string_ty
         }
         if (!recursive_template_param_or_substitution_call && qualifiers->suppressed())
         {
-          add_substitution(start_pos, type);
+          if (is_template)
+            add_substitution(start_pos, type);
           // substitution: "<template-param>" or
           // "<template-template-param> <template-args>".
           qualifiers->decode_qualifiers(prefix, postfix);
           // substitution: all qualified types, if any.
         }
         break;
+      }
       case 'S':
         if (pos_ >= maxpos_)
         {
-- 
2.43.0


From a412038c1bf1647f8bbe3627ba40c6ae4b124f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:19 +0000
Subject: [PATCH 28/38] fix: a cv-qualified function type is a single
 substitution

---
 include/cwd_demangle.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 30251d6..5e16902 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -1732,9 +1732,12 @@ bool session<Allocator>::decode_type_with_postfix(string_type& prefix, string_ty
     qualifiers = new qualifier_list<Allocator>(*this);
   // First eat all qualifiers.
   bool failure = false;
+  bool cv_qualified = false; // Set if the last qualifier is a cv-qualifier.
   for (;;) // So we can use 'continue' to eat the next qualifier.
   {
     int start_pos = pos_;
+    if (!current() || !strchr("FKVr", current()))
+      cv_qualified = false;
     switch (current())
     {
       case 'P':
@@ -1756,6 +1759,7 @@ bool session<Allocator>::decode_type_with_postfix(string_type& prefix, string_ty
           ++count;
           c = next();
         } while (c == 'K' || c == 'V' || c == 'r');
+        cv_qualified = true;
         qualifiers->add_qualifier_start(cv_qualifier, start_pos, count, inside_substitution_);
         continue;
       }
@@ -1930,7 +1934,8 @@ bool session<Allocator>::decode_type_with_postfix(string_type& prefix, string_ty
           failure = true;
           break;
         }
-        add_substitution(start_pos, type); // Substitution: "F<R><B>E".
+        if (!cv_qualified) // The qualified function type is a substitution, but not the function type itself.
+          add_substitution(start_pos, type); // Substitution: "F<R><B>E".
         string_type qualifiers_prefix;
         string_type qualifiers_postfix;
         qualifiers->decode_qualifiers(qualifiers_prefix, qualifiers_postfix);
-- 
2.43.0


From e7623eac4374b834e85a5eff7801b159f452729f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:04 +0000
Subject: [PATCH 29/38] fix: an array of pointers to arrays got the bounds of
 the outer array twice

---
 include/cwd_demangle.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 5e16902..bd9f97c 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -20,7 +20,7 @@
 #define _GLIBCXX_DEMANGLER_DOUT_ENTERING3(...)
 #define _GLIBCXX_DEMANGLER_RETURN return result_
 #define _GLIBCXX_DEMANGLER_RETURN2 return result_
-#define _GLIBCXX_DEMANGLER_RETURN3
+#define _GLIBCXX_DEMANGLER_RETURN3 return
 #define _GLIBCXX_DEMANGLER_FAILURE \
   do                               \
   {                                \
-- 
2.43.0


From 6f6fdad90ca3bc819943864eb9abf889ef6c1a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:46 +0000
Subject: [PATCH 30/38] fix: a literal of type double with a sign and 17 digits
 did not fit in its buffer

---
 include/cwd_demangle.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index bd9f97c..9b88887 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -884,7 +884,7 @@ bool session<Allocator>::decode_real(string_type& output, size_t size_of_real)
     }
     ++word;
   }
-  char buf[24];
+  char buf[32]; // A sign, at most 18 digits with a dot, an exponent of at most 5 characters and the trailing zero.
   if (implementation_details_.decode_real(buf, words, size_of_real))
   {
     output += buf;
-- 
2.43.0


From d5d1f626e39db66683425c20ff913999e46dc761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:12 +0000
Subject: [PATCH 31/38] fix: a literal that is not normalized had the wrong
 exponent

---
 src/demangle.cxx | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/demangle.cxx b/src/demangle.cxx
index d44ec52..e75c489 100644
--- a/src/demangle.cxx
+++ b/src/demangle.cxx
@@ -612,12 +612,25 @@ void print_IEEE_fp(char* buf, unsigned long* words, int nbits_exponent, int nbit
   decimal_float bit;
   bit.set_2pow(m1); // 0.5 ; 2 ** (-bit_cnt - 1)
   unsigned long mask = 0x40000000 >> nbits_exponent;
+  int denormal_shift = 0; // The first bit of a fraction that is not normalized is the 1 in (1.F) * 2 ** -denormal_shift.
   for (int bit_cnt = 0; bit_cnt < nbits_fraction; ++bit_cnt)
   {
-    if ((*words & mask))
-      result += bit;
-    bool success = result.decrement_exponent();
-    bit.divide_by_two(success); // Keep exponents equal for easy addition.
+    if (!normalized)
+    {
+      ++denormal_shift;
+      if ((*words & mask))
+      {
+        result.set_2pow(m0);
+        normalized = true;
+      }
+    }
+    else
+    {
+      if ((*words & mask))
+        result += bit;
+      bool success = result.decrement_exponent();
+      bit.divide_by_two(success); // Keep exponents equal for easy addition.
+    }
     if (!(mask >>= 1))
     {
       mask = 0x80000000;
@@ -640,6 +653,8 @@ void print_IEEE_fp(char* buf, unsigned long* words, int nbits_exponent, int nbit
     mask >>= 1;
   }
   result *= two_pow_exponent;
+  while (denormal_shift-- > 0)
+    result.divide_by_two(true);
   result.print_to_with_precision(buf, precision);
 }
 
-- 
2.43.0


From 4b1b209917a0797d4b2c30ee588fab9df59f89d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:40 +0000
Subject: [PATCH 32/38] fix: the substitution for the type of a const member
 function is const too

---
 include/cwd_demangle.h | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 9b88887..a1634d4 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -1820,7 +1820,7 @@ bool session<Allocator>::decode_type_with_postfix(string_type& prefix, string_ty
         // Must be CV-qualifiers and a member function pointer.
         {
           // <Q>M<C><Q2>F<R><B>E	==> R (C::*Q)B Q2
-          //     substitutions: "<C>", "F<R><B>E" (<R> and <B>
+          //     substitutions: "<C>", "<Q2>F<R><B>E" (<R> and <B>
           //                    recursive), "M<C><Q2>F<R><B>E".
           int count = 0;
           int Q2_start_pos = pos_;
@@ -1833,13 +1833,9 @@ bool session<Allocator>::decode_type_with_postfix(string_type& prefix, string_ty
           if (count)
             class_type_qualifiers.add_qualifier_start(cv_qualifier, Q2_start_pos, count, inside_substitution_);
           string_type member_function_qualifiers;
-          // It is unclear why g++ doesn't add a substitution for
-          // "<Q2>F<R><B>E" as it should I think.
           string_type member_function_qualifiers_postfix;
           class_type_qualifiers.decode_qualifiers(member_function_qualifiers, member_function_qualifiers_postfix, true);
           member_function_qualifiers += member_function_qualifiers_postfix;
-          // I don't think this substitution is actually ever used.
-          int function_pos = pos_;
           if (eat_current() != 'F')
           {
             failure = true;
@@ -1864,8 +1860,8 @@ bool session<Allocator>::decode_type_with_postfix(string_type& prefix, string_ty
             failure = true;
             break;
           }
-          // substitution: "F<R><B>E".
-          add_substitution(function_pos, type);
+          // substitution: "<Q2>F<R><B>E".
+          add_substitution(Q2_start_pos, type);
           // substitution: "M<C><Q2>F<R><B>E".
           add_substitution(start_pos, type);
           // substitution: all qualified types if any.
-- 
2.43.0


From 7b16eec74a1530654dfc2d616d75a8fb98882b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:53 +0000
Subject: [PATCH 33/38] fix: the size of what a const or volatile pointer
 points to was 0

---
 include/libcwd/type_info.h | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/include/libcwd/type_info.h b/include/libcwd/type_info.h
index 92021cc..d714ba8 100644
--- a/include/libcwd/type_info.h
+++ b/include/libcwd/type_info.h
@@ -44,6 +44,33 @@ struct sizeof_ref
 template <typename T>
 size_t sizeof_ref_v = sizeof_ref<T>::value;
 
+// The size of what T points to, or 0 if T is not a (possibly cv-qualified) pointer.
+template <typename T>
+struct sizeof_pointee
+{
+  static constexpr size_t value = 0;
+};
+
+template <typename T>
+struct sizeof_pointee<T const> : sizeof_pointee<T>
+{
+};
+
+template <typename T>
+struct sizeof_pointee<T volatile> : sizeof_pointee<T>
+{
+};
+
+template <typename T>
+struct sizeof_pointee<T const volatile> : sizeof_pointee<T>
+{
+};
+
+template <typename T>
+struct sizeof_pointee<T*> : sizeof_ref<T>
+{
+};
+
 } // namespace _private_
 
 /**
@@ -150,7 +177,7 @@ TypeInfo const& type_info<T>::value()
 {
   if (!s_initialized_)
   {
-    s_value_.init(typeid(T).name(), sizeof(T), 0);
+    s_value_.init(typeid(T).name(), sizeof(T), sizeof_pointee<T>::value);
     s_initialized_ = true;
   }
   return s_value_;
@@ -232,7 +259,7 @@ template <typename T>
           typeid(libcwd_type_info_exact<T>).name(),
           typeid(T).name()),
         sizeof(T),
-        0);
+        ::libcwd::_private_::sizeof_pointee<T>::value);
     s_initialized_ = true;
   }
   return s_value_;
-- 
2.43.0


From 4fb8bdb0779e2773a1ac5b43deeb4ce770a019ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:01 +0000
Subject: [PATCH 34/38] fix: type_info_of asserted, or made up a name, for many
 types

---
 include/libcwd/type_info.h | 29 +++++++++----
 src/type_info.cxx          | 84 ++++----------------------------------
 2 files changed, 31 insertions(+), 82 deletions(-)

diff --git a/include/libcwd/type_info.h b/include/libcwd/type_info.h
index d714ba8..9fbaf24 100644
--- a/include/libcwd/type_info.h
+++ b/include/libcwd/type_info.h
@@ -120,7 +120,26 @@ class TypeInfo
 
 namespace _private_ {
 
-extern char const* extract_exact_name(char const*, char const*);
+extern char const* extract_exact_name(char const* qualifiers, char const* pointer_name);
+
+// The mangled name of T, including its qualifiers: that of T* without the leading 'P'.
+template <typename T>
+struct exact_name
+{
+  static char const* value() { return typeid(T*).name() + 1; }
+};
+
+template <typename T>
+struct exact_name<T&>
+{
+  static char const* value() { return extract_exact_name("R", typeid(T*).name()); }
+};
+
+template <typename T>
+struct exact_name<T&&>
+{
+  static char const* value() { return extract_exact_name("O", typeid(T*).name()); }
+};
 
 //-------------------------------------------------------------------------------------------------
 // type_info_of
@@ -255,9 +274,7 @@ template <typename T>
 {
   if (!s_initialized_)
   {
-    s_value_.init(::libcwd::_private_::extract_exact_name(
-          typeid(libcwd_type_info_exact<T>).name(),
-          typeid(T).name()),
+    s_value_.init(::libcwd::_private_::exact_name<T>::value(),
         sizeof(T),
         ::libcwd::_private_::sizeof_pointee<T>::value);
     s_initialized_ = true;
@@ -276,9 +293,7 @@ template <typename T>
 {
   if (!s_initialized_)
   {
-    s_value_.init(::libcwd::_private_::extract_exact_name(
-          typeid(libcwd_type_info_exact<T*>).name(),
-          typeid(T*).name()),
+    s_value_.init(typeid(T*).name(),
         sizeof(T*),
         ::libcwd::_private_::sizeof_ref_v<T>);
     s_initialized_ = true;
diff --git a/src/type_info.cxx b/src/type_info.cxx
index 35fc28a..7a9e868 100644
--- a/src/type_info.cxx
+++ b/src/type_info.cxx
@@ -22,75 +22,17 @@ extern void demangle_type(char const* in, std::string& out);
 // Warning: This LEAKS memory!
 // For internal use only
 
-#if __GXX_ABI_VERSION == 0
-char const* extract_exact_name(char const* encap_mangled_name)
+// Return the mangled name of the type that qualifiers (for example "R") apply to, where pointer_name is
+// the mangled name of a pointer to that type. Neither the P nor the qualifiers change the numbers of
+// the substitutions in the remaining part of the name.
+char const* extract_exact_name(char const* qualifiers, char const* pointer_name)
 {
-  size_t len = strlen(encap_mangled_name + 27); // Strip "Q22libcwd_type_info_exact1Z" from the beginning.
-  char* exact_name = new char[len + 1]; // LEAK58
-  strncpy(exact_name, encap_mangled_name + 27, len);
-  exact_name[len] = 0;
+  size_t qlen = strlen(qualifiers);
+  char* exact_name = new char[qlen + strlen(pointer_name)]; // LEAK58
+  strcpy(exact_name, qualifiers);
+  strcpy(exact_name + qlen, pointer_name + 1); // Skip the "P" of the pointer.
   return exact_name;
 }
-#else
-char const* skip_substitution(char const* const ptr, char const* const begin)
-{
-  char const* S_ptr = ptr;
-  // S_ptr now points to a trailing '_'.
-  for (int digits = 0; S_ptr > begin && digits < 3; ++digits)
-  {
-    --S_ptr;
-    // All legal substitution patterns have the form "S[0-9A-Z]*_" where we
-    // limit the number of base-36 digits to two (because it seems extremely
-    // unlikely that there are more than 1296 substitutions).
-    //
-    // We allow "SS_" where the second S is a digit; but not "SSS_" because
-    // it's already unlikely to have 841 substitutions, too.
-    if (*S_ptr == 'S' && (digits > 0 || S_ptr[-1] != 'S'))
-      return S_ptr;
-    // Substitutions use base-36 with 'digits' [0-9A-Z].
-    if (!('0' <= *S_ptr && *S_ptr <= '9') && !('A' <= *S_ptr && *S_ptr <= 'Z'))
-      break;
-  }
-  return ptr;
-}
-
-// As an example, the input could be:
-//
-// encap_mangled_name =
-// 22libcwd_type_info_exactIRKN4evio14AcceptedSocketI23MyAcceptedSocketDecoderNS0_12OutputStreamEEEE
-// stripped_mangled_name =                         N4evio14AcceptedSocketI23MyAcceptedSocketDecoderNS _12OutputStreamEEE
-// where the space in the latter is not really there (just added for alignment)               -------^
-char const* extract_exact_name(char const* encap_mangled_name, char const* stripped_mangled_name)
-{
-  encap_mangled_name += 25; // Strip "22libcwd_type_info_exactI" from the beginning.
-  // encap_mangled_name now points to the qualifiers string (if any) "RK".
-  char const* encap_ptr = encap_mangled_name + strlen(encap_mangled_name) - 1;
-  // encap_ptr now points to the last E of encap_mangled_name.
-  size_t len = strlen(stripped_mangled_name);
-  char const* ptr = stripped_mangled_name + len;
-  // ptr now points to the terminating zero of stripped_mangled_name.
-  while (ptr > stripped_mangled_name)
-  {
-    --ptr;
-    --encap_ptr;
-    LIBCWD_ASSERT(*ptr == *encap_ptr); // This is how we assume the encapsulation works!
-    if (*ptr == '_')
-    {
-      // Now we want to put both pointers on the 'S',
-      // but only if this could be a substitution.
-      ptr = skip_substitution(ptr, stripped_mangled_name);
-      encap_ptr = skip_substitution(encap_ptr, encap_mangled_name);
-    }
-  }
-  // ptr is now equal to stripped_mangled_name, and encap_ptr points to the first character after the qualifiers.
-  size_t qlen = encap_ptr - encap_mangled_name;
-  char* exact_name = new char[qlen + len + 1]; // LEAK58
-  // Add the qualifiers to the mangled name:
-  strncpy(exact_name, encap_mangled_name, qlen);
-  strcpy(exact_name + qlen, stripped_mangled_name);
-  return exact_name;
-}
-#endif
 
 // Idem
 
@@ -127,15 +69,7 @@ libcwd::TypeInfo const& libcwd_type_info_exact<void*>::value()
 {
   if (!s_initialized_)
   {
-#if __GXX_ABI_VERSION == 0
-    s_value_.init(
-        ::libcwd::_private_::extract_exact_name(typeid(libcwd_type_info_exact<void*>).name()),
-        sizeof(void*), 0 /* unknown */);
-#else
-    s_value_.init(::libcwd::_private_::extract_exact_name(typeid(libcwd_type_info_exact<void*>).name(),
-                                                          typeid(void*).name()),
-                  sizeof(void*), 0 /* unknown */);
-#endif
+    s_value_.init(typeid(void*).name(), sizeof(void*), 0 /* unknown */);
     s_initialized_ = true;
   }
   return s_value_;
-- 
2.43.0


From f1b72f16629e29fd80cc7db346fb120004330ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:31 +0000
Subject: [PATCH 35/38] fix: threads that ask for the same type information for
 the first time raced

---
 include/libcwd/type_info.h | 54 +++++++-------------------------------
 src/type_info.cxx          | 18 +++----------
 2 files changed, 14 insertions(+), 58 deletions(-)

diff --git a/include/libcwd/type_info.h b/include/libcwd/type_info.h
index 9fbaf24..14135de 100644
--- a/include/libcwd/type_info.h
+++ b/include/libcwd/type_info.h
@@ -150,7 +150,6 @@ struct type_info
 {
  private:
   static TypeInfo s_value_;
-  static bool s_initialized_;
 
  public:
   static TypeInfo const& value();
@@ -163,7 +162,6 @@ struct type_info<T*>
 {
  private:
   static TypeInfo s_value_;
-  static bool s_initialized_;
 
  public:
   static TypeInfo const& value();
@@ -176,7 +174,6 @@ struct type_info<void*>
 {
  private:
   static TypeInfo s_value_;
-  static bool s_initialized_;
 
  public:
   static TypeInfo const& value();
@@ -186,19 +183,12 @@ struct type_info<void*>
 template <typename T>
 TypeInfo type_info<T>::s_value_;
 
-// _private_::
-template <typename T>
-bool type_info<T>::s_initialized_;
-
 // _private_::
 template <typename T>
 TypeInfo const& type_info<T>::value()
 {
-  if (!s_initialized_)
-  {
-    s_value_.init(typeid(T).name(), sizeof(T), sizeof_pointee<T>::value);
-    s_initialized_ = true;
-  }
+  static bool const initialized = (s_value_.init(typeid(T).name(), sizeof(T), sizeof_pointee<T>::value), true);
+  (void)initialized;
   return s_value_;
 }
 
@@ -206,19 +196,12 @@ TypeInfo const& type_info<T>::value()
 template <typename T>
 TypeInfo type_info<T*>::s_value_;
 
-// _private_::
-template <typename T>
-bool type_info<T*>::s_initialized_;
-
 // _private_::
 template <typename T>
 TypeInfo const& type_info<T*>::value()
 {
-  if (!s_initialized_)
-  {
-    s_value_.init(typeid(T*).name(), sizeof(T*), sizeof_ref_v<T>);
-    s_initialized_ = true;
-  }
+  static bool const initialized = (s_value_.init(typeid(T*).name(), sizeof(T*), sizeof_ref_v<T>), true);
+  (void)initialized;
   return s_value_;
 }
 
@@ -233,7 +216,6 @@ struct libcwd_type_info_exact
 {
  private:
   static ::libcwd::TypeInfo s_value_;
-  static bool s_initialized_;
 
  public:
   static ::libcwd::TypeInfo const& value();
@@ -245,7 +227,6 @@ struct libcwd_type_info_exact<T*>
 {
  private:
   static ::libcwd::TypeInfo s_value_;
-  static bool s_initialized_;
 
  public:
   static ::libcwd::TypeInfo const& value();
@@ -257,7 +238,6 @@ struct libcwd_type_info_exact<void*>
 {
  private:
   static ::libcwd::TypeInfo s_value_;
-  static bool s_initialized_;
 
  public:
   static ::libcwd::TypeInfo const& value();
@@ -266,38 +246,24 @@ struct libcwd_type_info_exact<void*>
 template <typename T>
 ::libcwd::TypeInfo libcwd_type_info_exact<T>::s_value_;
 
-template <typename T>
-bool libcwd_type_info_exact<T>::s_initialized_;
-
 template <typename T>
 ::libcwd::TypeInfo const& libcwd_type_info_exact<T>::value()
 {
-  if (!s_initialized_)
-  {
-    s_value_.init(::libcwd::_private_::exact_name<T>::value(),
-        sizeof(T),
-        ::libcwd::_private_::sizeof_pointee<T>::value);
-    s_initialized_ = true;
-  }
+  static bool const initialized =
+      (s_value_.init(::libcwd::_private_::exact_name<T>::value(), sizeof(T), ::libcwd::_private_::sizeof_pointee<T>::value), true);
+  (void)initialized;
   return s_value_;
 }
 
 template <typename T>
 ::libcwd::TypeInfo libcwd_type_info_exact<T*>::s_value_;
 
-template <typename T>
-bool libcwd_type_info_exact<T*>::s_initialized_;
-
 template <typename T>
 ::libcwd::TypeInfo const& libcwd_type_info_exact<T*>::value()
 {
-  if (!s_initialized_)
-  {
-    s_value_.init(typeid(T*).name(),
-        sizeof(T*),
-        ::libcwd::_private_::sizeof_ref_v<T>);
-    s_initialized_ = true;
-  }
+  static bool const initialized =
+      (s_value_.init(typeid(T*).name(), sizeof(T*), ::libcwd::_private_::sizeof_ref_v<T>), true);
+  (void)initialized;
   return s_value_;
 }
 
diff --git a/src/type_info.cxx b/src/type_info.cxx
index 7a9e868..b0a91c2 100644
--- a/src/type_info.cxx
+++ b/src/type_info.cxx
@@ -45,15 +45,10 @@ char const* make_label(char const* mangled_name)
 
 TypeInfo type_info<void*>::s_value_;
 
-bool type_info<void*>::s_initialized_;
-
 TypeInfo const& type_info<void*>::value()
 {
-  if (!s_initialized_)
-  {
-    s_value_.init(typeid(void*).name(), sizeof(void*), 0 /* unknown */);
-    s_initialized_ = true;
-  }
+  static bool const initialized = (s_value_.init(typeid(void*).name(), sizeof(void*), 0 /* unknown */), true);
+  (void)initialized;
   return s_value_;
 }
 
@@ -63,14 +58,9 @@ TypeInfo const& type_info<void*>::value()
 
 libcwd::TypeInfo libcwd_type_info_exact<void*>::s_value_;
 
-bool libcwd_type_info_exact<void*>::s_initialized_;
-
 libcwd::TypeInfo const& libcwd_type_info_exact<void*>::value()
 {
-  if (!s_initialized_)
-  {
-    s_value_.init(typeid(void*).name(), sizeof(void*), 0 /* unknown */);
-    s_initialized_ = true;
-  }
+  static bool const initialized = (s_value_.init(typeid(void*).name(), sizeof(void*), 0 /* unknown */), true);
+  (void)initialized;
   return s_value_;
 }
-- 
2.43.0


From db15bff869880b4d143dc9205e2ee1e2fedb87ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:09 +0000
Subject: [PATCH 36/38] fix: DebugString used freed memory when given a part of
 itself

Both append and prepend may reallocate the string, and assign may shrink it,
before reading the text that was passed.
---
 src/debug.cxx | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/debug.cxx b/src/debug.cxx
index 07290e1..9660ddd 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -20,6 +20,7 @@
 #include <atomic>
 #include <cerrno>
 #include <cstdlib> // Needed for _Exit() (C99)
+#include <functional> // Needed for std::less
 #include <iostream>
 #include <new>
 #ifdef HAVE_SYS_RESOURCE_H
@@ -751,17 +752,23 @@ DebugString::~DebugString()
 
 void DebugString::internal_assign(char const* str, size_t len)
 {
-  if (len > capacity_ || (capacity_ > default_capacity_ && len < default_capacity_))
+  if (len > capacity_)
+    str_ = (char*)realloc(str_, (capacity_ = calculate_capacity(len)) + 1);
+  memmove(str_, str, len); // This might be a part of this same string.
+  if (capacity_ > default_capacity_ && len < default_capacity_)
     str_ = (char*)realloc(str_, (capacity_ = calculate_capacity(len)) + 1);
-  memmove(str_, str, len);
   size_ = len;
   str_[size_] = 0;
 }
 
 void DebugString::internal_append(char const* str, size_t len)
 {
+  size_t const offset = str - str_;
+  bool const is_own_text = std::less_equal<char const*>()(str_, str) && std::less<char const*>()(str, str_ + size_);
   if (size_ + len > capacity_ || (capacity_ > default_capacity_ && size_ + len < default_capacity_))
     str_ = (char*)realloc(str_, (capacity_ = calculate_capacity(size_ + len)) + 1);
+  if (is_own_text)
+    str = str_ + offset; // The text might have been moved.
   memmove(str_ + size_, str, len);
   size_ += len;
   str_[size_] = 0;
@@ -769,9 +776,13 @@ void DebugString::internal_append(char const* str, size_t len)
 
 void DebugString::internal_prepend(char const* str, size_t len)
 {
+  size_t const offset = str - str_;
+  bool const is_own_text = std::less_equal<char const*>()(str_, str) && std::less<char const*>()(str, str_ + size_);
   if (size_ + len > capacity_ || (capacity_ > default_capacity_ && size_ + len < default_capacity_))
     str_ = (char*)realloc(str_, (capacity_ = calculate_capacity(size_ + len)) + 1);
   memmove(str_ + len, str_, size_ + 1);
+  if (is_own_text)
+    str = str_ + len + offset; // The text has been moved.
   memmove(str_, str, len);
   size_ += len;
 }
-- 
2.43.0


From 5371af538b517b7d418378675f558b3d4cf1ffe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:50 +0000
Subject: [PATCH 37/38] fix: libcw_do lost its ostream and always_flush when
 initialized before its constructor

libcwd::initialize() may be called from the constructor of a global object
that runs before the constructor of libcw_do, for example when that object
is in a shared library without DT_NEEDED entry for libcwd. The members
that libcw_do's own constructor initialized after that, ostream_state_ and
always_flush_, were then reset: a subsequent Dout dereferenced a NULL
ostream, and calls to always_flush_on() were forgotten.
---
 include/libcwd/DebugObject.h | 13 ++++++++++---
 src/debug.cxx                |  2 ++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/libcwd/DebugObject.h b/include/libcwd/DebugObject.h
index 7624dfc..697c01d 100644
--- a/include/libcwd/DebugObject.h
+++ b/include/libcwd/DebugObject.h
@@ -126,8 +126,12 @@ class DebugObject
   //
 
   friend class libcwd::Buffer; // Buffer::writeto() needs access.
-  _private_::OstreamState ostream_state_;
+  union
+  {
+    _private_::OstreamState ostream_state_;
+  };
   // Ostream destination and matching external lock, protected as one unit.
+  // Constructed by NS_init(): our constructor may not reset it, because it might already be in use by then.
 
   Buffer* unfinished_oss_;
   unsigned long newlineless_thread_; // The thread that wrote an unterminated line, or zero when there is no such line.
@@ -154,8 +158,11 @@ class DebugObject
   bool interactive_;
   // Set true if the last or current debug output is to cerr
 
-  std::atomic<int> always_flush_{0};
-  // Application-wide flush on/off counter for Debug Objects.
+  union
+  {
+    std::atomic<int> always_flush_;
+  };
+  // Application-wide flush on/off counter for Debug Objects. Constructed by NS_init().
 
  public:
   /** @addtogroup format-of-the-debug-output */
diff --git a/src/debug.cxx b/src/debug.cxx
index 9660ddd..5de0d63 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -1221,6 +1221,8 @@ bool DebugObject::NS_init(LIBCWD_TSD_PARAM)
 
   being_initialized_ = true;
 
+  new (&ostream_state_) _private_::OstreamState;
+  new (&always_flush_) std::atomic<int>{0};
   unfinished_oss_ = NULL;
   newlineless_thread_ = 0;
   newlineless_color_off_ = NULL;
-- 
2.43.0


From d16c349c978c4066ef962791f537fbf671ba0622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:39 +0000
Subject: [PATCH 38/38] fix: an empty flushed part of a continued line repeated
 the <unfinished> mark

Writing nothing does not open the line again: unfinished_already_printed_ must be kept.
---
 src/debug.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/debug.cxx b/src/debug.cxx
index 5de0d63..4c64ea5 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -166,7 +166,8 @@ void Buffer::writeto(std::ostream* os, LIBCWD_TSD_PARAM, DebugObject& debug_obje
   }
   if (do_flush)
     locked_os->flush();
-  unfinished_already_printed_ = ends_on_newline;
+  if (ends_on_newline || curlen > 0) // When nothing was written then the line wasn't continued either.
+    unfinished_already_printed_ = ends_on_newline;
   if (ends_on_newline)
   {
     debug_object.unfinished_oss_ = NULL;
-- 
2.43.0

