From 89c6fe222f79c8cb08395e9874e63e0472872d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:00 +0000
Subject: [PATCH 01/35] fix: report failed reads, writes and closes of streams

---
 app/counts2kn.cc              |  2 ++
 app/perplexity.cc             |  3 +++
 app/simpleinterpolate2arpa.cc |  2 ++
 src/InterKn_tmpl.hh           |  8 ++++++
 src/InterTreeGram.cc          |  3 +++
 src/PerplexityFuncs.cc        |  5 ++++
 src/Storage_tmpl.hh           |  5 +++-
 src/VarigramFuncs_tmpl.hh     |  1 +
 src/Vocabulary.cc             |  1 +
 src/io.cc                     | 50 ++++++++++++++++++++++++++++-------
 src/io.hh                     | 14 +++++++++-
 11 files changed, 82 insertions(+), 12 deletions(-)

diff --git a/app/counts2kn.cc b/app/counts2kn.cc
index 458f46b..9709dc2 100644
--- a/app/counts2kn.cc
+++ b/app/counts2kn.cc
@@ -212,11 +212,13 @@ int main(int argc, char **argv) {
     if (vocabout.size()) {
       io::Stream out(vocabout, "w");
       kn->vocab.write(out.file);
+      out.close();
     }
 
     if (countsout.size()) {
       io::Stream out(countsout, "w");
       kn->write_counts(out.file);
+      out.close();
     }
 
     if (!narpa) {
diff --git a/app/perplexity.cc b/app/perplexity.cc
index 73ac2be..f6742ea 100644
--- a/app/perplexity.cc
+++ b/app/perplexity.cc
@@ -156,7 +156,10 @@ int main(int argc, char *argv[]) {
   } else {
     lm->logprob_file(txtin.file, nullptr, 1);
   }
+  txtin.close();
+  stream_out.close();
   lm->print_results(out.file);
   if (knows_hitrates) // FIXME: This doesn't work yet for InterTreeGrams
     lm->print_hitrates(out.file);
+  out.close();
 }
diff --git a/app/simpleinterpolate2arpa.cc b/app/simpleinterpolate2arpa.cc
index d78548b..a9a535a 100644
--- a/app/simpleinterpolate2arpa.cc
+++ b/app/simpleinterpolate2arpa.cc
@@ -30,6 +30,7 @@ component_models_and_weights(const std::string inputlist) {
     cur_ngram->set_oov("<UNK>");
     io::Stream in(model_name, "r");
     cur_ngram->read(in.file, 0);
+    in.close();
     cur_ngram->copy_vocab_to(all_vocabs);
 
     auto mod_w_pair = std::make_pair(std::move(cur_ngram), weight);
@@ -69,4 +70,5 @@ int main(int argc, char *argv[]) {
 
   io::Stream out(config.arguments.at(1), "w");
   models_and_weights[0].first->write(out.file);
+  out.close();
 }
diff --git a/src/InterKn_tmpl.hh b/src/InterKn_tmpl.hh
index 8677c92..e516ea1 100644
--- a/src/InterKn_tmpl.hh
+++ b/src/InterKn_tmpl.hh
@@ -324,6 +324,7 @@ void InterKn_t<KT, CT>::create_model(float prunetreshold) {
       io::Stream in(this->m_prunedata_name, "r", io::REOPENABLE);
       Storage_t<KT, CT> real_counts;
       real_counts.read(in.file, this->vocab);
+      in.close();
       fprintf(stderr, "real counts size %ld\n", (long)real_counts.size());
       prune_model(prunetreshold, 1, &real_counts);
     }
@@ -693,6 +694,8 @@ void InterKn_t<KT, CT>::constructor_helper(
       this->vocab.read(vocabin.file);
       this->moc->ReadCounts(datain.file);
     }
+    datain.close();
+    vocabin.close();
     this->moc->vocabsize = this->vocab.num_words();
   } else {
     fprintf(stderr, "Reading data\n");
@@ -708,6 +711,7 @@ void InterKn_t<KT, CT>::constructor_helper(
       }
       io::Stream vocabin(vocabname, "r");
       this->vocab.read(vocabin.file);
+      vocabin.close();
       if (this->vocab.num_words() < 1) {
         fprintf(stderr, "Warning: no words from vocab file? Exit\n");
         exit(-1);
@@ -733,6 +737,7 @@ void InterKn_t<KT, CT>::constructor_helper(
         this->input_data_size = moc->InitializeCountsFromStorage(
             datastorage, order, sent_start_idx);
       }
+      datain.close();
     } else {
       if (this->KT_is_short((KT *)NULL) || ndrop != 0 ||
           (nfirst < 9999999 && nfirst >= 1)) {
@@ -770,6 +775,7 @@ void InterKn_t<KT, CT>::constructor_helper(
           this->input_data_size = moc->InitializeCountsFromStorage(
               datastorage, order, sent_start_idx);
         }
+        datain.close();
       } else {
         io::Stream datain(this->m_data_name, "r");
         this->input_data_size = moc->InitializeCountsFromText(
@@ -778,6 +784,7 @@ void InterKn_t<KT, CT>::constructor_helper(
         if (datastorage) {
           datain.open(this->m_data_name, "r");
           datastorage->read(datain.file, this->vocab);
+          datain.close();
         }
       }
     }
@@ -797,6 +804,7 @@ void InterKn_t<KT, CT>::constructor_helper(
     fprintf(stderr, "Reading optisource\n");
     io::Stream in(this->m_opti_name, "r");
     this->m_optistorage->read(in.file, this->vocab);
+    in.close();
   }
   fprintf(stderr, "Optistorage size %ld\n", (long)this->m_optistorage->size());
 
diff --git a/src/InterTreeGram.cc b/src/InterTreeGram.cc
index 2a12349..5cb929f 100644
--- a/src/InterTreeGram.cc
+++ b/src/InterTreeGram.cc
@@ -42,6 +42,7 @@ InterTreeGram::InterTreeGram(std::vector<std::string> lm_names,
     while (areader.next_gram(lm_in.file, line, tmp_gram, log_prob, back_off) &&
            tmp_gram.size() == 1) {
     }
+    lm_in.close();
   }
 
   // Initialize all models
@@ -61,6 +62,7 @@ InterTreeGram::InterTreeGram(std::vector<std::string> lm_names,
     // Read n_grams
     TreeGramArpaReader tgar;
     tgar.read(lm_in.file, lm, true);
+    lm_in.close();
 
     // io::Stream lm_out("whaat", "w");
     // TreeGramArpaReader tga2;
@@ -94,6 +96,7 @@ void InterTreeGram::test_write(std::string fname, int idx) {
   io::Stream lm_out(fname, "w");
   TreeGramArpaReader tga;
   tga.write(lm_out.file, m_models[idx]);
+  lm_out.close();
 }
 
 void InterTreeGram::fetch_bigram_list(int prev_word_id,
diff --git a/src/PerplexityFuncs.cc b/src/PerplexityFuncs.cc
index f2629f5..25630e8 100644
--- a/src/PerplexityFuncs.cc
+++ b/src/PerplexityFuncs.cc
@@ -17,6 +17,7 @@ Perplexity::Perplexity(const char *lm_name) {
   // try {  Commented out: Let the exceptions rise to surface...
   io::Stream in(lm_name, "rb");
   m_lm->read(in.file, 1);
+  in.close();
   //}  catch (std::exception &e) {
   // std::cerr << e.what() << std::endl;
   // exit(1);
@@ -62,6 +63,7 @@ Perplexity::Perplexity(const std::string lm_name, const int type,
   try {
     io::Stream in(lm_name, "r");
     m_lm->read(in.file, type);
+    in.close();
   } catch (std::exception &e) {
     std::cerr << e.what() << std::endl;
     exit(1);
@@ -136,6 +138,7 @@ void Perplexity::find_indices(const std::string fname, std::vector<int> &vec) {
       fprintf(stderr, "Warning, %s not in the lm !\n", buf);
     }
   }
+  in.close();
 }
 
 void Perplexity::load_mbs(const std::string fname,
@@ -149,6 +152,7 @@ void Perplexity::load_mbs(const std::string fname,
     std::string sbuf(buf);
     vec.push_back(sbuf);
   }
+  in.close();
 }
 
 float Perplexity::sentence_logprob(const char *sentence_in) {
@@ -434,6 +438,7 @@ void Perplexity::set_interpolation(std::string lm_name) {
 
   io::Stream in(lm_name, "r");
   tmp_lm->read(in.file, false);
+  in.close();
 
   // Add all words from tmp_lm to m_lm
   for (int i = 0; i < tmp_lm->num_words(); i++) {
diff --git a/src/Storage_tmpl.hh b/src/Storage_tmpl.hh
index ebcedc9..aa53308 100644
--- a/src/Storage_tmpl.hh
+++ b/src/Storage_tmpl.hh
@@ -138,8 +138,10 @@ void Storage_t<T, ICT>::init_fsl_file(const int order,
 
   if (this->clear_lm_history == -1) {
     for (int i = 0; i < order - 1; i++) {
-      if (fscanf(in.file, "%s", sbuf) != 1)
+      if (fscanf(in.file, "%s", sbuf) != 1) {
+        in.close();
         return;
+      }
       v.push_back(voc->word_index(sbuf));
     }
     v.push_back(0); // vector is of right size
@@ -182,6 +184,7 @@ void Storage_t<T, ICT>::init_fsl_file(const int order,
       }
     }
   }
+  in.close();
 }
 
 template <typename T, typename ICT>
diff --git a/src/VarigramFuncs_tmpl.hh b/src/VarigramFuncs_tmpl.hh
index 98ca2eb..366f680 100644
--- a/src/VarigramFuncs_tmpl.hh
+++ b/src/VarigramFuncs_tmpl.hh
@@ -508,6 +508,7 @@ void Varigram_t<KT, ICT>::get_unigram_counts(std::string &infilename, int ndrop,
   m_initial_ng->count(in.file, true);
   if (nfirst <= 0)
     nfirst = 10000000;
+  in.close();
   m_initial_ng->shrink(ndrop, nfirst);
 }
 
diff --git a/src/Vocabulary.cc b/src/Vocabulary.cc
index 05c8e3e..57b1504 100644
--- a/src/Vocabulary.cc
+++ b/src/Vocabulary.cc
@@ -70,6 +70,7 @@ void Vocabulary::read(FILE *file) {
 void Vocabulary::read(const std::string &filename) {
   io::Stream file(filename, "r");
   read(file.file);
+  file.close();
 }
 
 void Vocabulary::write(FILE *file) const {
diff --git a/src/io.cc b/src/io.cc
index 283797d..1b46845 100644
--- a/src/io.cc
+++ b/src/io.cc
@@ -3,15 +3,22 @@
 namespace io {
 bool Stream::verbose = false;
 
-Stream::Stream() : file(NULL), is_pipe(false), close_allowed(true) {}
+Stream::Stream()
+    : file(NULL), is_pipe(false), close_allowed(true), m_writing(false) {}
 
 Stream::Stream(std::string file_name, std::string mode, SeekType seek_type,
                bool allow_close)
-    : file(NULL), is_pipe(false), close_allowed(true) {
+    : file(NULL), is_pipe(false), close_allowed(true), m_writing(false) {
   open(file_name, mode, seek_type, allow_close);
 }
 
-Stream::~Stream() { close(); }
+Stream::~Stream() {
+  try {
+    close();
+  } catch (std::exception &e) {
+    fprintf(stderr, "Stream::~Stream(): %s\n", e.what());
+  }
+}
 
 void Stream::open(std::string file_name, std::string mode, SeekType seek_type,
                   bool allow_close) {
@@ -23,6 +30,7 @@ void Stream::open(std::string file_name, std::string mode, SeekType seek_type,
   }
 
   close_allowed = allow_close;
+  m_writing = mode[0] != 'r';
 
   if (verbose) {
     if (mode == "r")
@@ -166,18 +174,40 @@ void Stream::open(std::string file_name, std::string mode, SeekType seek_type,
 }
 
 void Stream::close() {
-  if (file == NULL || !close_allowed)
+  if (file == NULL)
     return;
-  if (is_pipe)
+
+  FILE *const f = file;
+  bool ok = !ferror(f);
+
+  if (!close_allowed) {
+    if (m_writing && fflush(f) != 0)
+      ok = false;
+    if (!ok)
+      throw CloseError();
+    return;
+  }
+
+  // The stream counts as closed, whatever happens below
+  const bool pipe = is_pipe;
+  const bool at_end = feof(f) != 0;
+  is_pipe = false;
+  file = NULL;
+
+  if (pipe) {
 #ifdef _WIN32
     throw OpenError();
 #else
-    pclose(file);
+    const int status = pclose(f);
+    // A child whose output was not read to the end may die of that
+    if (status != 0 && (m_writing || at_end || status == -1))
+      ok = false;
 #endif
-  else
-    fclose(file);
-  is_pipe = false;
-  file = NULL;
+  } else if (fclose(f) != 0)
+    ok = false;
+
+  if (!ok)
+    throw CloseError();
 }
 
 } // namespace io
diff --git a/src/io.hh b/src/io.hh
index 4403231..a654df0 100644
--- a/src/io.hh
+++ b/src/io.hh
@@ -1,6 +1,7 @@
 #ifndef IO_HH
 #define IO_HH
 
+#include <exception>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string>
@@ -45,7 +46,10 @@ struct Stream {
   void open(std::string file_name, std::string mode,
             SeekType seek_type = LINEAR, bool allow_close = true);
 
-  /** Close the file, but only if \ref close_allowed is \c true. */
+  /** Close the file, but only if \ref close_allowed is \c true (otherwise
+   * only flush what was written).  Throws CloseError if anything read from or
+   * written to the stream failed.  The destructor can only warn about that, so
+   * call this explicitly when done with the stream. */
   void close();
 
   FILE *file;   //!< The handle for the file or pipe
@@ -58,7 +62,15 @@ struct Stream {
     virtual const char *what() const throw() { return "Io: open error"; }
   };
 
+  struct CloseError : public std::exception {
+    virtual const char *what() const throw() {
+      return "Io: reading or writing a stream failed";
+    }
+  };
+
 private:
+  bool m_writing; // The stream was opened for writing
+
   // Do not allow copying streams!
   Stream(const Stream &stream) { abort(); }
   const Stream &operator=(const Stream &stream) {
-- 
2.43.0


From 0caf3e31f7d9a25fd0d1483984bb396cd8203a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:13 +0000
Subject: [PATCH 02/35] fix: arpasize -S rejects a model cut short in its
 header

---
 app/arpasize.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/app/arpasize.cc b/app/arpasize.cc
index 09f67c0..05a6c76 100644
--- a/app/arpasize.cc
+++ b/app/arpasize.cc
@@ -21,13 +21,14 @@ void simple_count(const conf::Config &config, io::Stream *in, io::Stream *out) {
   }
 
   std::string sbuf;
-  while (str::read_line(&sbuf, in->file, true) && "\\data\\" != sbuf)
+  bool more;
+  while ((more = str::read_line(&sbuf, in->file, true)) && "\\data\\" != sbuf)
     ;
   int i = 1;
   int i2;
   int count;
   std::vector<int> counts;
-  while (str::read_line(&sbuf, in->file, true) &&
+  while (more && (more = str::read_line(&sbuf, in->file, true)) &&
          sscanf(sbuf.c_str(), "ngram %d=%d", &i2, &count) == 2) {
     if (i2 != i) {
       fprintf(stderr, "read error, exit\n");
@@ -36,7 +37,8 @@ void simple_count(const conf::Config &config, io::Stream *in, io::Stream *out) {
     counts.push_back(count);
     i++;
   }
-  if (sbuf.length() > 0) {
+  // The counts must have been followed by an empty line, not by the end of file
+  if (!more || sbuf.length() > 0) {
     fprintf(stderr, "read error,exit\n");
     exit(-1);
   }
-- 
2.43.0


From 2c90f551b1cddc3991b909a0b47c40c9b4c2215b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:27 +0000
Subject: [PATCH 03/35] fix: NgramCounts::shrink stays inside its word table

---
 src/NgramCounts_tmpl.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/NgramCounts_tmpl.hh b/src/NgramCounts_tmpl.hh
index 4ba6977..74ec64e 100644
--- a/src/NgramCounts_tmpl.hh
+++ b/src/NgramCounts_tmpl.hh
@@ -210,7 +210,9 @@ void NgramCounts_t<K, T>::shrink(float ndrop, int nfirst) {
   /* create a backwards mapping */
   std::vector<int> backwards(wordtable.size(), 0);
   int i;
-  for (i = 1; (i <= nfirst && wordtable[i].count > ndrop); i++)
+  for (i = 1; i < (int)wordtable.size() && i <= nfirst &&
+              wordtable[i].count > ndrop;
+       i++)
     backwards[wordtable[i].oldidx] = i;
   nfirst = i - 1;
 
-- 
2.43.0


From b178df4f8c9417ab1eb103af0bd77a87bb38adf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:32 +0000
Subject: [PATCH 04/35] fix: perplexity -f -i weights the models as documented
 and counts all hit orders

---
 app/perplexity.cc      | 6 ++++--
 src/PerplexityFuncs.cc | 2 ++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/app/perplexity.cc b/app/perplexity.cc
index f6742ea..08b4157 100644
--- a/app/perplexity.cc
+++ b/app/perplexity.cc
@@ -115,10 +115,12 @@ int main(int argc, char *argv[]) {
     if (config["freegram"].specified) {
       lm.reset(new Perplexity(lm_name, lm_type, ccs_name, wb_name, mb_name,
                               unk_symbol, true, skip_unks));
-      lm->set_interpolation(config["interpolate"].get_str());
+      // The coefficient is the weight of the second model.  It has to be set
+      // first, set_interpolation() may swap the models.
       if (config["inter_coeff"].specified) {
-        lm->set_alpha(config["inter_coeff"].get_double());
+        lm->set_alpha(1.0 - config["inter_coeff"].get_double());
       }
+      lm->set_interpolation(config["interpolate"].get_str());
     } else {
       // Interpolate the new way, using InterTreeGram
       knows_hitrates = false;
diff --git a/src/PerplexityFuncs.cc b/src/PerplexityFuncs.cc
index 25630e8..5f3f990 100644
--- a/src/PerplexityFuncs.cc
+++ b/src/PerplexityFuncs.cc
@@ -428,6 +428,7 @@ double Perplexity::print_results(FILE *out) {
 
 void Perplexity::set_interpolation(std::string lm_name) {
   auto tmp_lm = std::make_shared<HashGram_t<int> >();
+  tmp_lm->set_oov(m_lm->word(0));
 
   // Add all words from m_lm to tmp_lm
   std::vector<int> gram(1);
@@ -452,6 +453,7 @@ void Perplexity::set_interpolation(std::string lm_name) {
     m_lm = tmp_lm;
     m_alpha = 1 - m_alpha;
   }
+  reset_hitrates(); // The order may have changed
 
   assert(m_lm->num_words() == m_lm2->num_words());
   for (int i = 0; i < m_lm->num_words(); i++) {
-- 
2.43.0


From 74fea85546fd16d790302695cf9d00867cd5cae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:13 +0000
Subject: [PATCH 05/35] fix: bound the length of words read into fixed buffers

---
 app/check_model.cc     | 8 ++++----
 src/PerplexityFuncs.cc | 8 ++++----
 src/Storage_tmpl.hh    | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/app/check_model.cc b/app/check_model.cc
index 26c3324..62c91b5 100644
--- a/app/check_model.cc
+++ b/app/check_model.cc
@@ -75,20 +75,20 @@ int main(int argc, char **argv) {
 
   if (!datafile) {
     std::deque<int> gram;
-    char tmpbuf[MAX_WLEN];
-    while (fscanf(txtin.file, "%s", tmpbuf) != EOF)
+    char tmpbuf[MAX_WLEN + 1];
+    while (fscanf(txtin.file, MAX_WLEN_FMT_STRING, tmpbuf) != EOF)
       gram.push_back(tg->word_index(tmpbuf));
     check_gram(gram, true);
     txtin.close();
     exit(0);
   }
 
-  char word[MAX_WLEN];
+  char word[MAX_WLEN + 1];
   std::deque<int> history;
   int errors = 0;
   int num_words = 0;
   while (true) {
-    const int fsc = fscanf(txtin.file, "%s", word);
+    const int fsc = fscanf(txtin.file, MAX_WLEN_FMT_STRING, word);
     if (!fsc || fsc == EOF)
       break;
     num_words++;
diff --git a/src/PerplexityFuncs.cc b/src/PerplexityFuncs.cc
index 5f3f990..1b36c50 100644
--- a/src/PerplexityFuncs.cc
+++ b/src/PerplexityFuncs.cc
@@ -124,12 +124,12 @@ void Perplexity::init_special_symbols(const std::string ccs_name,
 }
 
 void Perplexity::find_indices(const std::string fname, std::vector<int> &vec) {
-  char buf[1000];
+  char buf[MAX_WLEN + 1];
 
   io::Stream in(fname, "r");
   int temp;
   while (true) {
-    int i = fscanf(in.file, "%s", buf);
+    int i = fscanf(in.file, MAX_WLEN_FMT_STRING, buf);
     if (!i || i == EOF)
       break;
 
@@ -143,10 +143,10 @@ void Perplexity::find_indices(const std::string fname, std::vector<int> &vec) {
 
 void Perplexity::load_mbs(const std::string fname,
                           std::vector<std::string> &vec) {
-  char buf[1000];
+  char buf[MAX_WLEN + 1];
   io::Stream in(fname, "r");
   while (true) {
-    int i = fscanf(in.file, "%s", buf);
+    int i = fscanf(in.file, MAX_WLEN_FMT_STRING, buf);
     if (!i || i == EOF)
       break;
     std::string sbuf(buf);
diff --git a/src/Storage_tmpl.hh b/src/Storage_tmpl.hh
index aa53308..8596034 100644
--- a/src/Storage_tmpl.hh
+++ b/src/Storage_tmpl.hh
@@ -134,11 +134,11 @@ void Storage_t<T, ICT>::init_fsl_file(const int order,
 
   io::Stream in(fname, "r", io::REOPENABLE);
   std::vector<T> v;
-  char sbuf[MAX_WLEN];
+  char sbuf[MAX_WLEN + 1];
 
   if (this->clear_lm_history == -1) {
     for (int i = 0; i < order - 1; i++) {
-      if (fscanf(in.file, "%s", sbuf) != 1) {
+      if (fscanf(in.file, MAX_WLEN_FMT_STRING, sbuf) != 1) {
         in.close();
         return;
       }
@@ -146,7 +146,7 @@ void Storage_t<T, ICT>::init_fsl_file(const int order,
     }
     v.push_back(0); // vector is of right size
 
-    while (fscanf(in.file, "%s", sbuf) == 1) {
+    while (fscanf(in.file, MAX_WLEN_FMT_STRING, sbuf) == 1) {
       indextype idx = FindEntry(m_refmat->m, (byte *)(&v[0]), 0);
       // fprintf(stderr,"%d: idx %d(<%d) ",i,idx,m_lists.size());
       T widx = voc->word_index(sbuf);
@@ -161,7 +161,7 @@ void Storage_t<T, ICT>::init_fsl_file(const int order,
         v[j] = v[j + 1];
     }
   } else {
-    while (fscanf(in.file, "%s", sbuf) == 1) {
+    while (fscanf(in.file, MAX_WLEN_FMT_STRING, sbuf) == 1) {
       T widx = voc->word_index(sbuf);
       if (widx == this->clear_lm_history)
         v.clear();
-- 
2.43.0


From 9802bcc3b53d74f7bb177f7969a061fb261857b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:08 +0000
Subject: [PATCH 06/35] fix: sentence_logprob scores every token and owns its
 buffer

---
 src/PerplexityFuncs.cc | 21 +++++----------------
 src/PerplexityFuncs.hh |  2 --
 2 files changed, 5 insertions(+), 18 deletions(-)

diff --git a/src/PerplexityFuncs.cc b/src/PerplexityFuncs.cc
index 1b36c50..a5d8e3d 100644
--- a/src/PerplexityFuncs.cc
+++ b/src/PerplexityFuncs.cc
@@ -4,13 +4,12 @@
 #include "TreeGram.hh"
 #include "def.hh"
 #include <algorithm>
+#include <sstream>
 
 Perplexity::Perplexity(const char *lm_name) {
   init_variables();
   m_lm.reset(new TreeGram());
   m_lm->set_oov("<UNK>");
-  m_tmpstring_length = 100;
-  m_tmpstring = (char *)malloc(m_tmpstring_length * sizeof(char));
   m_print_unk_warn = false;
   m_skip_unk_prob = true;
 
@@ -157,21 +156,11 @@ void Perplexity::load_mbs(const std::string fname,
 
 float Perplexity::sentence_logprob(const char *sentence_in) {
   float lpsum = 0.0, foo;
-  char *sentence = strdup(sentence_in);
-  char *cptr = strtok(sentence, " ");
+  std::istringstream sentence(sentence_in);
+  std::string word;
 
-  if (strlen(sentence) > m_tmpstring_length) {
-    m_tmpstring_length = strlen(sentence);
-    m_tmpstring =
-        (char *)realloc(m_tmpstring, m_tmpstring_length * sizeof(char));
-  }
-
-  while (cptr) {
-    sscanf(cptr, "%s", m_tmpstring);
-    lpsum += logprob(m_tmpstring, foo);
-    cptr = strtok(NULL, " ");
-  }
-  free(sentence);
+  while (sentence >> word)
+    lpsum += logprob(word.c_str(), foo);
   return -lpsum;
 }
 
diff --git a/src/PerplexityFuncs.hh b/src/PerplexityFuncs.hh
index 1c89fd2..d1f4544 100644
--- a/src/PerplexityFuncs.hh
+++ b/src/PerplexityFuncs.hh
@@ -84,8 +84,6 @@ private:
   void init_special_symbols(const std::string ccs_name,
                             const std::string wb_name,
                             const std::string mb_name);
-  char *m_tmpstring;
-  int m_tmpstring_length;
   wb_type m_wb_type;
   bool is_wb(int idx);
   bool is_mb(std::string w);
-- 
2.43.0


From b31c985f93bff1ff147cbaf0acbe7dd800e07e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:54 +0000
Subject: [PATCH 07/35] fix: quote file names for the compressors' shell

---
 src/io.cc | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/io.cc b/src/io.cc
index 1b46845..6daa7cf 100644
--- a/src/io.cc
+++ b/src/io.cc
@@ -3,6 +3,18 @@
 namespace io {
 bool Stream::verbose = false;
 
+// Quotes a file name for the shell
+static std::string shell_quoted(const std::string &name) {
+  std::string quoted = "'";
+  for (size_t i = 0; i < name.length(); i++) {
+    if (name[i] == '\'')
+      quoted += "'\\''";
+    else
+      quoted += name[i];
+  }
+  return quoted + "'";
+}
+
 Stream::Stream()
     : file(NULL), is_pipe(false), close_allowed(true), m_writing(false) {}
 
@@ -135,18 +147,19 @@ void Stream::open(std::string file_name, std::string mode, SeekType seek_type,
     std::string pipe;
     if (mode == "r") {
       if (file_name.substr(file_name.length() - 3) == ".gz")
-        pipe = "gzip -dc '";
+        pipe = "gzip -dc < ";
       else
-        pipe = "bzip2 -dc '";
-      pipe += file_name + "'";
+        pipe = "bzip2 -dc < ";
+      pipe += shell_quoted(file_name);
     } else if (mode == "w") {
       if (file_name.substr(file_name.length() - 3) == ".gz")
-        pipe = "gzip > '";
+        pipe = "gzip > ";
       else
-        pipe = "bzip2 --best > '";
-      pipe += file_name + "'";
+        pipe = "bzip2 --best > ";
+      pipe += shell_quoted(file_name);
     } else {
       fprintf(stderr, "invalid mode %s for gzipped file\n", mode.c_str());
+      throw OpenError();
     }
 #ifdef _WIN32
     throw OpenError();
-- 
2.43.0


From 3ba3ed70aa45c622cdce453ff5556042584f8798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:57 +0000
Subject: [PATCH 08/35] fix: varigram_kn -V ends when the target cannot be
 reached

---
 src/VarigramFuncs_tmpl.hh | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/VarigramFuncs_tmpl.hh b/src/VarigramFuncs_tmpl.hh
index 366f680..a884b03 100644
--- a/src/VarigramFuncs_tmpl.hh
+++ b/src/VarigramFuncs_tmpl.hh
@@ -207,6 +207,14 @@ template <typename KT, typename ICT> void Varigram_t<KT, ICT>::prune() {
         continue;
       }
 
+      // Unigrams are never pruned. When nothing else is left, or raising E does
+      // not help any more, there is nothing to do
+      if (m_kn->num_grams() <= m_kn->MocOrderSize(1) || cur_scale > 1e30) {
+        fprintf(stderr, "WARNING: cannot prune down to %d n-grams\n",
+                m_ngram_prune_target);
+        break;
+      }
+
       double scale_diff = cur_scale - prev_scale;
       indextype gram_diff = prev_num_grams - m_kn->num_grams();
 
-- 
2.43.0


From 648a8cec999cbe8050b9152cc8e46c8dc4a8d7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:59 +0000
Subject: [PATCH 09/35] fix: leave the unigram totals alone when -C finds no
 sentence starts

---
 src/InterKn_tmpl.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/InterKn_tmpl.hh b/src/InterKn_tmpl.hh
index e516ea1..c0aeb8c 100644
--- a/src/InterKn_tmpl.hh
+++ b/src/InterKn_tmpl.hh
@@ -199,6 +199,8 @@ template <typename BOT>
 void InterKn_int_disc<KT, ICT>::remove_sent_start_prob_fbase(BOT *dummy) {
   std::vector<KT> tmp(1, (KT)this->m_sent_boundary);
   const ICT value = this->moc->GetCount(tmp);
+  if (value == 0) // The text has no sentence starts
+    return;
   this->moc->IncrementCount(tmp, -value);
   BOT bo;
   this->moc->zero_bo(bo);
@@ -212,6 +214,8 @@ template <typename BOT>
 void InterKn_int_disc3<KT, ICT>::remove_sent_start_prob_fbase(BOT *dummy) {
   std::vector<KT> tmp(1, (KT)this->m_sent_boundary);
   const ICT value = this->moc->GetCount(tmp);
+  if (value == 0) // The text has no sentence starts
+    return;
   this->moc->IncrementCount(tmp, -value);
   BOT bo;
   this->moc->zero_bo(bo);
-- 
2.43.0


From e8ecf648327ba1fc942b828139ae451246f6fd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:01 +0000
Subject: [PATCH 10/35] fix: RemoveDefaultValues also looks at the entry moved
 into a freed place

---
 src/sparse_matrix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_matrix.c b/src/sparse_matrix.c
index 6fa8925..fd5e8c8 100644
--- a/src/sparse_matrix.c
+++ b/src/sparse_matrix.c
@@ -499,7 +499,7 @@ void RemoveDefaultValues(struct matrix *m) {
   for (i = 0; i < m->num_entries; i++) {
     if (!memcmp(&(m->data[i * m->size_of_entry]), m->default_value,
                 m->size_of_entry))
-      RemoveEntryIdx(m, i);
+      RemoveEntryIdx(m, i--);
   }
 }
 
-- 
2.43.0


From f5a772b28ce81acbfd5ca943689f6afed0a5df89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:16 +0000
Subject: [PATCH 11/35] fix: check the allocation made for ordered stepping

---
 src/sparse_matrix.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sparse_matrix.c b/src/sparse_matrix.c
index fd5e8c8..cb8be0d 100644
--- a/src/sparse_matrix.c
+++ b/src/sparse_matrix.c
@@ -412,6 +412,8 @@ void *OrderedStepThrough(struct matrix *m, byte *key, void *value) {
     if (sarray != NULL)
       free(sarray);
     sarray = (indextype *)malloc(m->num_entries * sizeof(indextype));
+    if (m->num_entries > 0)
+      check_malloc(sarray, "sorted entries");
     for (i = 0; i < sm->num_entries; i++) {
       sarray[i] = i;
     }
-- 
2.43.0


From def5c8d7ca8a25345c6a15df930513ec84c09ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:22 +0000
Subject: [PATCH 12/35] fix: -f and -d restrict the vocabulary (shrink kept
 every word)

---
 src/NgramCounts_tmpl.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/NgramCounts_tmpl.hh b/src/NgramCounts_tmpl.hh
index 74ec64e..e610d62 100644
--- a/src/NgramCounts_tmpl.hh
+++ b/src/NgramCounts_tmpl.hh
@@ -217,7 +217,8 @@ void NgramCounts_t<K, T>::shrink(float ndrop, int nfirst) {
   nfirst = i - 1;
 
   /* Redo the vocabulary */
-  vocab->set_oov(wordtable[0].wstring); // clears the current vocabulary
+  vocab->clear_words();
+  vocab->add_word(wordtable[0].wstring); // The unknown word stays first
   for (i = 1; i <= nfirst; i++) {
     vocab->add_word(wordtable[i].wstring);
   }
-- 
2.43.0


From e3bf7ce3eb00ddbb7e9ea8f103a90aeaa0811859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:04 +0000
Subject: [PATCH 13/35] fix: counts2kn -s no longer ignores -d

---
 src/InterKn_tmpl.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/InterKn_tmpl.hh b/src/InterKn_tmpl.hh
index c0aeb8c..6892ca1 100644
--- a/src/InterKn_tmpl.hh
+++ b/src/InterKn_tmpl.hh
@@ -761,7 +761,7 @@ void InterKn_t<KT, CT>::constructor_helper(
         if (!this->KT_is_short((KT *)NULL))
           nc_tmp.shrink(ndrop, nfirst);
         else {
-          nc_tmp.shrink(0, std::min(65534, nfirst));
+          nc_tmp.shrink(ndrop, std::min(65534, nfirst));
         }
         nc_tmp.vocab->copy_vocab_to(this->vocab);
         datain.open(this->m_data_name, "r");
-- 
2.43.0


From a2ebe5207b67865c73bbc7351abe45301046b72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:34 +0000
Subject: [PATCH 14/35] fix: free-form models keep positive back-off weights

---
 src/HashGram_tmpl.hh | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/HashGram_tmpl.hh b/src/HashGram_tmpl.hh
index cc697a8..2f10386 100644
--- a/src/HashGram_tmpl.hh
+++ b/src/HashGram_tmpl.hh
@@ -41,7 +41,7 @@ template <typename KT> void HashGram_t<KT>::read_real(FILE *file) {
     if (log_prob > MINLOGPROB) {
       probs[order]->setvalue(&gram[0], log_prob);
     }
-    if (back_off < 0) {
+    if (back_off != 0) {
       backoffs[order]->setvalue(&gram[0], back_off);
     }
   }
@@ -58,7 +58,7 @@ void HashGram_t<KT>::write_real(FILE *out, std::string field_separator) {
     float logprob, bo;
     backoffs[o]->stepthrough(true, &gram[0], &logprob);
     while (backoffs[o]->stepthrough(false, &gram[0], &bo)) {
-      if (bo >= 0.0)
+      if (bo == 0.0)
         continue;
       FindEntry(probs[o]->m, (byte *)(&gram[0]), 1);
     }
@@ -70,7 +70,7 @@ void HashGram_t<KT>::write_real(FILE *out, std::string field_separator) {
     probs[o]->stepthrough(true, &gram[0], &logprob);
     while (probs[o]->stepthrough(false, &gram[0], &logprob)) {
       bo = backoffs[o]->getvalue(&gram[0]);
-      if (m_print_zerograms || logprob > MINLOGPROB || bo < 0)
+      if (m_print_zerograms || logprob > MINLOGPROB || bo != 0)
         num_grams[o]++;
     }
   }
@@ -90,13 +90,13 @@ void HashGram_t<KT>::write_real(FILE *out, std::string field_separator) {
     probs[o]->stepthrough(true, &gram[0], &logprob);
     while (probs[o]->stepthrough(false, &gram[0], &logprob)) {
       bo = backoffs[o]->getvalue(&gram[0]);
-      if (!m_print_zerograms && (logprob <= MINLOGPROB && bo >= 0))
+      if (!m_print_zerograms && (logprob <= MINLOGPROB && bo == 0))
         continue;
       fprintf(out, "%.4f", logprob);
       fprintf(out, "%s%s", field_separator.c_str(), word(gram[0]).c_str());
       for (int i = 1; i < o; i++)
         fprintf(out, " %s", word(gram[i]).c_str());
-      if (bo < 0)
+      if (bo != 0)
         fprintf(out, "%s%.4f", field_separator.c_str(), bo);
       fprintf(out, "\n");
     }
-- 
2.43.0


From ab847e605343bcfcf0bfbe2cf42f0dfcf247fa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:11 +0000
Subject: [PATCH 15/35] fix: context cues and word breaks that only the
 interpolated model knows

---
 src/PerplexityFuncs.cc | 13 ++++++++++---
 src/PerplexityFuncs.hh |  6 +++++-
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/PerplexityFuncs.cc b/src/PerplexityFuncs.cc
index a5d8e3d..b8874b6 100644
--- a/src/PerplexityFuncs.cc
+++ b/src/PerplexityFuncs.cc
@@ -96,14 +96,14 @@ void Perplexity::init_special_symbols(const std::string ccs_name,
                                       const std::string mb_name) {
   if (ccs_name.length()) {
     std::cerr << "Reading ccs";
-    find_indices(ccs_name, ccs_vector);
+    find_indices(ccs_name, ccs_vector, ccs_words);
     std::cerr << ", found " << ccs_vector.size() << " context cues."
               << std::endl;
   }
 
   if (wb_name.length()) {
     std::cerr << "Reading wb";
-    find_indices(wb_name, wb_vector);
+    find_indices(wb_name, wb_vector, wb_words);
     std::cerr << ", found " << wb_vector.size() << " word break symbols."
               << std::endl;
     m_wb_type = LISTED;
@@ -122,7 +122,8 @@ void Perplexity::init_special_symbols(const std::string ccs_name,
   ngram_hits.resize(m_lm->order() + 1, 0);
 }
 
-void Perplexity::find_indices(const std::string fname, std::vector<int> &vec) {
+void Perplexity::find_indices(const std::string fname, std::vector<int> &vec,
+                              std::vector<std::string> &words) {
   char buf[MAX_WLEN + 1];
 
   io::Stream in(fname, "r");
@@ -132,6 +133,7 @@ void Perplexity::find_indices(const std::string fname, std::vector<int> &vec) {
     if (!i || i == EOF)
       break;
 
+    words.push_back(buf);
     vec.push_back(temp = m_lm->word_index(buf));
     if (!temp) {
       fprintf(stderr, "Warning, %s not in the lm !\n", buf);
@@ -442,6 +444,11 @@ void Perplexity::set_interpolation(std::string lm_name) {
     m_lm = tmp_lm;
     m_alpha = 1 - m_alpha;
   }
+  // The listed words may be in the new model only
+  for (size_t i = 0; i < ccs_words.size(); i++)
+    ccs_vector[i] = m_lm->word_index(ccs_words[i]);
+  for (size_t i = 0; i < wb_words.size(); i++)
+    wb_vector[i] = m_lm->word_index(wb_words[i]);
   reset_hitrates(); // The order may have changed
 
   assert(m_lm->num_words() == m_lm2->num_words());
diff --git a/src/PerplexityFuncs.hh b/src/PerplexityFuncs.hh
index d1f4544..8e84ef5 100644
--- a/src/PerplexityFuncs.hh
+++ b/src/PerplexityFuncs.hh
@@ -75,11 +75,15 @@ private:
   std::shared_ptr<NGram> m_lm2;
   std::vector<int> ccs_vector;
   std::vector<int> wb_vector;
+  // The words behind the two above
+  std::vector<std::string> ccs_words;
+  std::vector<std::string> wb_words;
   std::vector<std::string> mb_vector;
   std::deque<int> history;
   std::vector<int> ngram_hits;
 
-  void find_indices(const std::string, std::vector<int> &);
+  void find_indices(const std::string, std::vector<int> &,
+                    std::vector<std::string> &);
   void load_mbs(const std::string, std::vector<std::string> &);
   void init_special_symbols(const std::string ccs_name,
                             const std::string wb_name,
-- 
2.43.0


From 1cc747e9b85a9ca7082d6332e54edc83153d9d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:06 +0000
Subject: [PATCH 16/35] fix: perplexity -i with -u keeps the models' vocabulary

---
 app/perplexity.cc    | 3 ++-
 src/InterTreeGram.cc | 4 +++-
 src/InterTreeGram.hh | 3 ++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/app/perplexity.cc b/app/perplexity.cc
index 08b4157..7b6737d 100644
--- a/app/perplexity.cc
+++ b/app/perplexity.cc
@@ -135,7 +135,8 @@ int main(int argc, char *argv[]) {
       }
       coeffs.push_back(1.0 - coeff);
       coeffs.push_back(coeff);
-      std::shared_ptr<NGram> itg(new InterTreeGram(lm_names, coeffs));
+      std::shared_ptr<NGram> itg(new InterTreeGram(
+          lm_names, coeffs, unk_symbol.length() ? unk_symbol : "<UNK>"));
       lm.reset(new Perplexity(itg, ccs_name, wb_name, mb_name, unk_symbol,
                               skip_unks));
     }
diff --git a/src/InterTreeGram.cc b/src/InterTreeGram.cc
index 5cb929f..2d14911 100644
--- a/src/InterTreeGram.cc
+++ b/src/InterTreeGram.cc
@@ -4,7 +4,9 @@
 #include "io.hh"
 
 InterTreeGram::InterTreeGram(std::vector<std::string> lm_names,
-                             std::vector<float> coeffs) {
+                             std::vector<float> coeffs,
+                             const std::string unk_symbol) {
+  set_oov(unk_symbol);
   if (lm_names.size() != coeffs.size()) {
     fprintf(stderr, "InterTreeGram::InterTreeGram: There must be as many "
                     "interpolation coeffs as there are LMs. Exit.\n");
diff --git a/src/InterTreeGram.hh b/src/InterTreeGram.hh
index c6f4311..f3b172c 100644
--- a/src/InterTreeGram.hh
+++ b/src/InterTreeGram.hh
@@ -13,7 +13,8 @@ public:
 
 class InterTreeGram : public NGram {
 public:
-  InterTreeGram(std::vector<std::string>, std::vector<float>);
+  InterTreeGram(std::vector<std::string>, std::vector<float>,
+                const std::string unk_symbol = "<UNK>");
   ~InterTreeGram();
 
   float log_prob(const Gram &gram);
-- 
2.43.0


From 9f93818180f87a5f0d3075794eaedf7f513aac16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:19 +0000
Subject: [PATCH 17/35] fix: free-form models may have an order without n-grams

---
 src/HashGram_tmpl.hh | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/HashGram_tmpl.hh b/src/HashGram_tmpl.hh
index 2f10386..78dbadb 100644
--- a/src/HashGram_tmpl.hh
+++ b/src/HashGram_tmpl.hh
@@ -26,16 +26,15 @@ template <typename KT> void HashGram_t<KT>::read_real(FILE *file) {
 
   std::vector<int> tmp_gram(1);
   float log_prob, back_off;
-  int prev_order = 0;
+  // An order may have no n-grams at all
+  for (int order = 1; order <= m_order; order++) {
+    probs[order] = new sikMatrix<KT, float>(
+        order, std::max(areader.counts[order - 1], 1), MINLOGPROB);
+    backoffs[order] = new sikMatrix<KT, float>(
+        order, std::max(areader.counts[order - 1], 1), 0.0);
+  }
   while (areader.next_gram(file, line, tmp_gram, log_prob, back_off)) {
     int order = tmp_gram.size();
-    if (order > prev_order) {
-      probs[order] = new sikMatrix<KT, float>(order, areader.counts[order - 1],
-                                              MINLOGPROB);
-      backoffs[order] =
-          new sikMatrix<KT, float>(order, areader.counts[order - 1], 0.0);
-      prev_order = order;
-    }
     // Inefficiency due to abstracting ArpaReader out
     std::vector<KT> gram(tmp_gram.begin(), tmp_gram.end());
     if (log_prob > MINLOGPROB) {
@@ -435,7 +434,8 @@ template <typename KT> void HashGram_t<KT>::renormalize_backoffs(int order) {
   }
   // Remember to sum the last prefix too !
   if (order > 1) {
-    normalize_and_set_bo(cur_prefix, explicit_probsum, full_bo_probsum);
+    if (probs[order]->num_entries() > 0)
+      normalize_and_set_bo(cur_prefix, explicit_probsum, full_bo_probsum);
   } else if (explicit_probsum > 0.001 && explicit_probsum < 1.0) {
     // Redistribute the remaining unigram mass equally accross unigrams
     const float uniprob = (1.0f - explicit_probsum) / probs[1]->num_entries();
@@ -469,9 +469,11 @@ void HashGram_t<KT>::fake_interpolate(HashGram_t<KT> &other, float lambda) {
       break;
     m_order += 1;
     probs[m_order] = new sikMatrix<KT, float>(
-        m_order, other.probs[m_order]->num_entries(), MINLOGPROB);
+        m_order, std::max(other.probs[m_order]->num_entries(), (indextype)1),
+        MINLOGPROB);
     backoffs[m_order] = new sikMatrix<KT, float>(
-        m_order, other.backoffs[m_order]->num_entries(), 0.0);
+        m_order, std::max(other.backoffs[m_order]->num_entries(), (indextype)1),
+        0.0);
   }
 
   for (int o = max_order; o >= 1; o--) {
-- 
2.43.0


From f625315dc78d358508e2f033a59b85db0806aa58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:22 +0000
Subject: [PATCH 18/35] fix: write the back-off weights of n-grams that have no
 extensions

---
 src/TreeGramArpaReader.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/TreeGramArpaReader.cc b/src/TreeGramArpaReader.cc
index 329978b..41a8b46 100644
--- a/src/TreeGramArpaReader.cc
+++ b/src/TreeGramArpaReader.cc
@@ -98,7 +98,8 @@ void TreeGramArpaReader::write(FILE *out, TreeGram *tree_gram,
       }
 
       // Possible backoff
-      if (iter.has_children())
+      if (iter.has_children() ||
+          (order < tree_gram->order() && iter.node().back_off != 0))
         fprintf(out, "%s%g\n", field_separator.c_str(), iter.node().back_off);
       else
         fprintf(out, "\n");
@@ -148,7 +149,8 @@ void TreeGramArpaReader::write_interpolated(FILE *out, TreeGram *tree_gram,
       }
 
       // Possible backoff
-      if (iter.has_children())
+      if (iter.has_children() ||
+          (order < tree_gram->order() && iter.node().back_off != 0))
         fprintf(out, "%s%g\n", field_separator.c_str(), iter.node().back_off);
       else
         fprintf(out, "\n");
-- 
2.43.0


From e9afc9d19dda1ca79054112b21fc951881cc627a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:00 +0000
Subject: [PATCH 19/35] fix: n-grams added as prefixes get their backed-off
 probability

---
 src/HashGram_tmpl.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/HashGram_tmpl.hh b/src/HashGram_tmpl.hh
index 78dbadb..873a437 100644
--- a/src/HashGram_tmpl.hh
+++ b/src/HashGram_tmpl.hh
@@ -91,6 +91,9 @@ void HashGram_t<KT>::write_real(FILE *out, std::string field_separator) {
       bo = backoffs[o]->getvalue(&gram[0]);
       if (!m_print_zerograms && (logprob <= MINLOGPROB && bo == 0))
         continue;
+      // An n-gram that is only there as a prefix backs off
+      if (logprob <= MINLOGPROB && o > 1 && m_type == BACKOFF)
+        logprob = log_prob_bo_helper(gram);
       fprintf(out, "%.4f", logprob);
       fprintf(out, "%s%s", field_separator.c_str(), word(gram[0]).c_str());
       for (int i = 1; i < o; i++)
-- 
2.43.0


From 3a2c66437c94e424c524a207b66323bf311d2851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:58 +0000
Subject: [PATCH 20/35] fix: models that are read free-form keep every word of
 their vocabulary

---
 src/HashGram_tmpl.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/HashGram_tmpl.hh b/src/HashGram_tmpl.hh
index 873a437..64a4b04 100644
--- a/src/HashGram_tmpl.hh
+++ b/src/HashGram_tmpl.hh
@@ -39,6 +39,9 @@ template <typename KT> void HashGram_t<KT>::read_real(FILE *file) {
     std::vector<KT> gram(tmp_gram.begin(), tmp_gram.end());
     if (log_prob > MINLOGPROB) {
       probs[order]->setvalue(&gram[0], log_prob);
+    } else if (order == 1) {
+      // A word stays in the vocabulary whatever its probability
+      probs[order]->increment_wo_del(&gram[0], 0.0f);
     }
     if (back_off != 0) {
       backoffs[order]->setvalue(&gram[0], back_off);
@@ -69,7 +72,7 @@ void HashGram_t<KT>::write_real(FILE *out, std::string field_separator) {
     probs[o]->stepthrough(true, &gram[0], &logprob);
     while (probs[o]->stepthrough(false, &gram[0], &logprob)) {
       bo = backoffs[o]->getvalue(&gram[0]);
-      if (m_print_zerograms || logprob > MINLOGPROB || bo != 0)
+      if (o == 1 || m_print_zerograms || logprob > MINLOGPROB || bo != 0)
         num_grams[o]++;
     }
   }
@@ -89,7 +92,7 @@ void HashGram_t<KT>::write_real(FILE *out, std::string field_separator) {
     probs[o]->stepthrough(true, &gram[0], &logprob);
     while (probs[o]->stepthrough(false, &gram[0], &logprob)) {
       bo = backoffs[o]->getvalue(&gram[0]);
-      if (!m_print_zerograms && (logprob <= MINLOGPROB && bo == 0))
+      if (o > 1 && !m_print_zerograms && (logprob <= MINLOGPROB && bo == 0))
         continue;
       // An n-gram that is only there as a prefix backs off
       if (logprob <= MINLOGPROB && o > 1 && m_type == BACKOFF)
-- 
2.43.0


From 985e6998081a2c2ec34fed9f12d04f87530d7e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:46 +0000
Subject: [PATCH 21/35] fix: counts2kn rejects a negative order

---
 app/counts2kn.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/counts2kn.cc b/app/counts2kn.cc
index 9709dc2..220b914 100644
--- a/app/counts2kn.cc
+++ b/app/counts2kn.cc
@@ -108,7 +108,7 @@ int main(int argc, char **argv) {
     }
     counts_in = -1;
   }
-  if (counts_in != 1 && n == 0) {
+  if (n < 0 || (counts_in != 1 && n == 0)) {
     fprintf(stderr, "Must specify order -n.\nExit.\n");
     exit(-1);
   }
-- 
2.43.0


From ee4e9d5447003fd8023fd5365dfae915b89d220a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:07 +0000
Subject: [PATCH 22/35] fix: a language model that could not be set up is
 destroyed safely

---
 src/InterKn.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/InterKn.hh b/src/InterKn.hh
index ee048aa..585a0cf 100644
--- a/src/InterKn.hh
+++ b/src/InterKn.hh
@@ -125,7 +125,8 @@ public:
   InterKn_t(const bool abs, const std::string &datasource,
             const std::string &optisource, const std::string &prunesource)
       : InterKn_k<KT>(abs, datasource, optisource, prunesource),
-        m_new_treshold(1), m_ori_treshold(1), m_eval_cache(NULL) {}
+        moc(NULL), m_new_treshold(1), m_ori_treshold(1),
+        m_eval_cache(NULL) {}
   ~InterKn_t();
   void constructor_helper(const std::string &vocabname, const int read_counts,
                           const int order, const int ndrop, const int nfirst,
-- 
2.43.0


From 88b0299611340e967a1de1b51799c0645094b467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:06 +0000
Subject: [PATCH 23/35] fix: read_line survives a line that starts with a NUL
 byte

---
 src/str.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/str.cc b/src/str.cc
index 981f4a1..aa2cb8a 100644
--- a/src/str.cc
+++ b/src/str.cc
@@ -31,7 +31,7 @@ bool read_line(std::string *str, FILE *file, bool do_chomp) {
       break;
 
     str->append(buf);
-    if ((*str)[str->length() - 1] == '\n') {
+    if (!str->empty() && (*str)[str->length() - 1] == '\n') {
       break;
     }
   }
-- 
2.43.0


From fb0cb40d48511442a6163ddec50a6f0ed031f681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:06 +0000
Subject: [PATCH 24/35] fix: CreateMatrix stays inside its table of primes

---
 src/sparse_matrix.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sparse_matrix.c b/src/sparse_matrix.c
index cb8be0d..0e26074 100644
--- a/src/sparse_matrix.c
+++ b/src/sparse_matrix.c
@@ -88,6 +88,7 @@ struct matrix *CreateMatrix(const int keysize, const indextype hashs,
               "prime to sparse_matrix.h.\n",
               (int)pr[i]);
       // exit(-1);
+      break;
     }
   }
   m->hashsize = pr[i];
-- 
2.43.0


From c8c6fbbb303f36e974abc45254783ec69d017fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:06 +0000
Subject: [PATCH 25/35] fix: the ARPA reader rejects empty headers and broken
 section lines

---
 src/ArpaReader.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ArpaReader.cc b/src/ArpaReader.cc
index 1493ae5..942db48 100644
--- a/src/ArpaReader.cc
+++ b/src/ArpaReader.cc
@@ -84,6 +84,8 @@ void ArpaReader::read_header(FILE *file, bool &interpolated,
       read_error();
     order++;
   }
+  if (counts.empty())
+    read_error();
 }
 
 bool ArpaReader::next_gram(FILE *file, std::string &line,
@@ -135,7 +137,8 @@ bool ArpaReader::next_gram(FILE *file, std::string &line,
     str::clean(&line, " \t");
     str::split(&line, "-", false, &m_vec);
 
-    if (atoi(m_vec[0].substr(1).c_str()) != m_read_order ||
+    if (m_vec.size() != 2 ||
+        atoi(m_vec[0].substr(1).c_str()) != m_read_order ||
         m_vec[1] != "grams:") {
       fprintf(stderr,
               "ArpaReader::next_gram(): "
-- 
2.43.0


From 7d2f904246b390a0b5d25226ab7a0bad4fad1e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:07 +0000
Subject: [PATCH 26/35] fix: n-grams of words without a 1-gram are rejected

---
 src/TreeGram.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/TreeGram.cc b/src/TreeGram.cc
index c602fab..9818d2e 100644
--- a/src/TreeGram.cc
+++ b/src/TreeGram.cc
@@ -77,6 +77,18 @@ void TreeGram::check_order(const Gram &gram, bool add_missing_unigrams) {
     add_gram(g, MINLOGPROB, 0);
   }
 
+  // The tree is reached through the 1-grams, every word must have one
+  if (gram.size() > 1) {
+    for (int i = 0; i < gram.size(); i++) {
+      if (gram[i] < 0 || gram[i] >= m_order_count[0]) {
+        fprintf(stderr, "TreeGram::check_order(): "
+                        "n-gram with a word that has no 1-gram\n");
+        print_gram(stderr, gram);
+        throw ReadError();
+      }
+    }
+  }
+
   // With the same order, the grams must inserted in sorted order.
   if (gram.size() == m_last_gram.size()) {
     int i;
-- 
2.43.0


From fc4bbd3313020ac6854be02499017fd9221daf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:30 +0000
Subject: [PATCH 27/35] fix: inconsistent binary models are rejected

---
 src/TreeGram.cc | 54 ++++++++++++++++++++++++++++++++++++++++++++++---
 src/TreeGram.hh |  1 +
 2 files changed, 52 insertions(+), 3 deletions(-)

diff --git a/src/TreeGram.cc b/src/TreeGram.cc
index 9818d2e..82f60ec 100644
--- a/src/TreeGram.cc
+++ b/src/TreeGram.cc
@@ -459,13 +459,25 @@ void TreeGram::read(FILE *file, bool binary) {
     throw ReadError();
   }
 
+  if (m_order < 1 || number_of_nodes < 1) {
+    fprintf(stderr,
+            "TreeGram::read(): invalid order %d or number of nodes %d\n",
+            m_order, number_of_nodes);
+    throw ReadError();
+  }
+
   // Read the counts for each order
-  int sum = 0;
+  long sum = 0;
   m_order_count.resize(m_order);
   for (int i = 0; i < m_order; i++) {
     if (fscanf(file, "%d\n", &m_order_count[i]) != 1) {
       throw ReadError();
     }
+    if (m_order_count[i] < 1) {
+      fprintf(stderr, "TreeGram::read(): invalid number of %d-grams: %d\n",
+              i + 1, m_order_count[i]);
+      throw ReadError();
+    }
     sum += m_order_count[i];
   }
 
@@ -475,7 +487,7 @@ void TreeGram::read(FILE *file, bool binary) {
   } else if (sum != number_of_nodes) {
     fprintf(stderr,
             "TreeGram::read(): "
-            "the sum of order counts %d does not match number of nodes %d\n",
+            "the sum of order counts %ld does not match number of nodes %d\n",
             sum, number_of_nodes);
     throw ReadError();
   }
@@ -483,7 +495,7 @@ void TreeGram::read(FILE *file, bool binary) {
   // Read the nodes
   m_nodes.clear();
   m_nodes.resize(number_of_nodes);
-  size_t block_size = number_of_nodes * sizeof(TreeGram::Node);
+  size_t block_size = (size_t)number_of_nodes * sizeof(TreeGram::Node);
   size_t blocks_read = fread(&m_nodes[0], block_size, 1, file);
   if (blocks_read != 1) {
     fprintf(stderr, "TreeGram::read(): "
@@ -493,6 +505,42 @@ void TreeGram::read(FILE *file, bool binary) {
 
   if (Endian::big)
     flip_endian();
+
+  check_nodes();
+}
+
+/// Checks nodes that come from a file.
+//
+// Lookups and iterators follow the word indices and child ranges, so these
+// must stay inside the vocabulary and inside the nodes of the next order.
+void TreeGram::check_nodes() {
+  bool ok = m_order_count[0] >= num_words() &&
+            m_nodes.back().child_index < 0;
+
+  int node = 0;
+  for (int order = 1; ok && order <= m_order; order++) {
+    const int end = node + m_order_count[order - 1];
+    const int next_end = order < m_order ? end + m_order_count[order] : end;
+    int children = end; // where the next child range may start
+    for (; ok && node < end; node++) {
+      const Node &n = m_nodes[node];
+      ok = n.word >= 0 && n.word < num_words() &&
+           (order > 1 || n.word == node);
+      if (!ok || n.child_index < 0 || node + 1 == (int)m_nodes.size() ||
+          m_nodes[node + 1].child_index <= n.child_index)
+        continue;
+
+      // A node with children
+      ok = n.child_index >= children &&
+           m_nodes[node + 1].child_index <= next_end;
+      children = m_nodes[node + 1].child_index;
+    }
+  }
+
+  if (!ok) {
+    fprintf(stderr, "TreeGram::read(): inconsistent n-gram nodes\n");
+    throw ReadError();
+  }
 }
 
 void TreeGram::flip_endian() {
diff --git a/src/TreeGram.hh b/src/TreeGram.hh
index cf9e341..90709d3 100644
--- a/src/TreeGram.hh
+++ b/src/TreeGram.hh
@@ -155,6 +155,7 @@ private:
   void find_path(const Gram &gram);
   void check_order(const Gram &gram, bool add_missing_unigrams = false);
   void flip_endian();
+  void check_nodes();
   void fetch_gram(const Gram &gram, int first);
 
   std::vector<int> m_order_count; // number of grams in each order
-- 
2.43.0


From 380c83c3fa4ccc8e16481d7f44615250d255a8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:37 +0000
Subject: [PATCH 28/35] fix: streams that fail to open or close can be reused

---
 src/io.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/io.cc b/src/io.cc
index 6daa7cf..22c3d76 100644
--- a/src/io.cc
+++ b/src/io.cc
@@ -36,6 +36,10 @@ void Stream::open(std::string file_name, std::string mode, SeekType seek_type,
                   bool allow_close) {
   close();
 
+  // A stream that may not be closed is only let go
+  file = NULL;
+  is_pipe = false;
+
   if (file_name.length() == 0) {
     fprintf(stderr, "can not open empty filename\n");
     throw OpenError();
@@ -196,8 +200,11 @@ void Stream::close() {
   if (!close_allowed) {
     if (m_writing && fflush(f) != 0)
       ok = false;
-    if (!ok)
+    if (!ok) { // Let go of it, so that the stream can be opened again
+      file = NULL;
+      is_pipe = false;
       throw CloseError();
+    }
     return;
   }
 
-- 
2.43.0


From 80e3c50e4a0dd59860c350e0554a5f07d5e56a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:31 +0000
Subject: [PATCH 29/35] fix: results asked for before any file are not garbage

---
 src/PerplexityFuncs.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PerplexityFuncs.cc b/src/PerplexityFuncs.cc
index b8874b6..932087a 100644
--- a/src/PerplexityFuncs.cc
+++ b/src/PerplexityFuncs.cc
@@ -82,6 +82,7 @@ void Perplexity::init_variables() {
   m_print_unk_warn = true;
   m_logprob = 0.0;
   m_perplexity = 0.0;
+  m_perplexity_wo_sent_ends = 0.0;
   m_token_perplexity = 0.0;
   m_lm2.reset();
   m_alpha = 0.5;
-- 
2.43.0


From 7a94d5d217b7453602fc9450876ef3ec21ce89e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:46 +0000
Subject: [PATCH 30/35] fix: words the tree model has no 1-gram for are unknown
 to it

---
 src/TreeGram.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/TreeGram.cc b/src/TreeGram.cc
index 82f60ec..234388e 100644
--- a/src/TreeGram.cc
+++ b/src/TreeGram.cc
@@ -164,8 +164,9 @@ int TreeGram::find_child(int word, int node_index) {
     exit(1);
   }
 
+  // Words added to the vocabulary afterwards have no 1-gram of their own
   if (node_index < 0)
-    return word;
+    return word < m_order_count[0] ? word : 0;
 
   // Note that (node_index + 1) is used later, so the last node_index
   // must not pass.  Actually, we could return -1 for all largest
@@ -585,11 +586,14 @@ void TreeGram::fetch_bigram_list(int prev_word_id,
   int child_index, next_child_index;
   float *lm_buf = new float[m_words.size()];
 
+  // Words added to the vocabulary afterwards have no 1-gram of their own
+  prev_word_id = find_child(prev_word_id, -1);
+
   // Get backoff weight
   back_off_w = m_nodes[prev_word_id].back_off;
   // Fill the unigram probabilities
   for (i = 0; i < m_words.size(); i++)
-    lm_buf[i] = back_off_w + m_nodes[i].log_prob;
+    lm_buf[i] = back_off_w + m_nodes[find_child(i, -1)].log_prob;
 
   // Fill the bigram probabilities
   child_index = m_nodes[prev_word_id].child_index;
@@ -612,6 +616,7 @@ void TreeGram::fetch_trigram_list(int w1, int w2,
   int bigram_index;
 
   // Check if bigram (w1,w2) exists
+  w1 = find_child(w1, -1);
   bigram_index = find_child(w2, w1);
   if (bigram_index == -1) {
     // No bigram (w1,w2), only condition to w2
@@ -629,7 +634,7 @@ void TreeGram::fetch_trigram_list(int w1, int w2,
     // Fill the unigram probabilities
     temp = bigram_back_off_w + w2_back_off_w;
     for (i = 0; i < m_words.size(); i++)
-      lm_buf[i] = temp + m_nodes[i].log_prob;
+      lm_buf[i] = temp + m_nodes[find_child(i, -1)].log_prob;
 
     // Fill bigram (w2, next_word_id) probabilities
     child_index = m_nodes[w2].child_index;
-- 
2.43.0


From 87e5c56c7fab6858703ec4289ff6e20183997be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:53 +0000
Subject: [PATCH 31/35] fix: counts2kn -Z trains with the vocabulary it is
 given

---
 src/InterKn_tmpl.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/InterKn_tmpl.hh b/src/InterKn_tmpl.hh
index 6892ca1..3b8136a 100644
--- a/src/InterKn_tmpl.hh
+++ b/src/InterKn_tmpl.hh
@@ -690,6 +690,7 @@ void InterKn_t<KT, CT>::constructor_helper(
                         "match, this will not be checked.\n");
       fprintf(stderr, "Reading counts for the highest order\n");
       NgramCounts_t<KT, CT> *ng = new NgramCounts_t<KT, CT>(order, 0, hashsize);
+      ng->use_vocabulary(&this->vocab);
       ng->read(datain.file, vocabin.file);
       this->moc->UseAsCounts(ng->counts);
     } else {
-- 
2.43.0


From 222d14f4b05f524e092146656a66176e165de059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:36 +0000
Subject: [PATCH 32/35] fix: damaged counts files are rejected

---
 src/InterKn_tmpl.hh          |  8 +++++--
 src/MultiOrderCounts.hh      | 10 ++++++--
 src/MultiOrderCounts_tmpl.hh | 44 ++++++++++++++++++++++++++++--------
 src/NgramCounts_tmpl.hh      | 23 +++++++++++++------
 4 files changed, 64 insertions(+), 21 deletions(-)

diff --git a/src/InterKn_tmpl.hh b/src/InterKn_tmpl.hh
index 3b8136a..a3446e6 100644
--- a/src/InterKn_tmpl.hh
+++ b/src/InterKn_tmpl.hh
@@ -185,7 +185,7 @@ void InterKn_int_disc3<KT, ICT>::estimate_nzer_counts() {
       }
 */
 
-      if (value == 0) { // With clear hist this is needed
+      if (value <= 0) { // With clear hist this is needed
         // assert(m_sent_boundary!=-1);
         continue;
       }
@@ -692,12 +692,16 @@ void InterKn_t<KT, CT>::constructor_helper(
       NgramCounts_t<KT, CT> *ng = new NgramCounts_t<KT, CT>(order, 0, hashsize);
       ng->use_vocabulary(&this->vocab);
       ng->read(datain.file, vocabin.file);
+      if (ng->counts->num_entries() == 0) {
+        fprintf(stderr, "No counts in the counts file. Exit.\n");
+        exit(-1);
+      }
       this->moc->UseAsCounts(ng->counts);
     } else {
       /* The counts include all orders and have already been KN-discounted */
       fprintf(stderr, "Reading previously KN-discounted counts\n");
       this->vocab.read(vocabin.file);
-      this->moc->ReadCounts(datain.file);
+      this->moc->ReadCounts(datain.file, this->vocab.num_words());
     }
     datain.close();
     vocabin.close();
diff --git a/src/MultiOrderCounts.hh b/src/MultiOrderCounts.hh
index 51f5ae2..ae9e958 100644
--- a/src/MultiOrderCounts.hh
+++ b/src/MultiOrderCounts.hh
@@ -171,7 +171,8 @@ public:
   virtual inline indextype bo_order_size(int o) = 0;
 
   virtual void WriteCounts(FILE *out) = 0;
-  virtual void ReadCounts(FILE *in) = 0;
+  // Word indices are accepted up to num_words, when it is given
+  virtual void ReadCounts(FILE *in, int num_words = 0) = 0;
   virtual void RemoveOrder(int order) = 0;
   long InitializeCountsFromText(FILE *in, Vocabulary *vocab,
                                 const bool grow_vocab, const int read_order,
@@ -328,7 +329,7 @@ public:
 
   inline int order() { return MultiOrderCounts<KT, CT>::m_counts.size() - 1; }
   void WriteCounts(FILE *out);
-  void ReadCounts(FILE *in);
+  void ReadCounts(FILE *in, int num_words = 0);
 
   void RemoveOrder(int order);
   // void RemoveEmptyNodes(const int order, const indextype start, const
@@ -397,6 +398,7 @@ public:
 protected:
   virtual void WriteCounts_BOhelper(FILE *out, BOT *bo) = 0;
   virtual void ReadCounts_BOhelper(BOT *bo, std::string *s, bool *ok) = 0;
+  virtual int BO_fields() = 0; // Numbers stored for each backoff
   void allocate_matrices_backoffs(int o);
   BOT m_uni_bo;
 
@@ -460,6 +462,7 @@ private:
     this->write_num(out, bo->prune_den);
   }
 
+  inline int BO_fields() { return 3; }
   inline void ReadCounts_BOhelper(bo_c *bo, std::string *s, bool *ok) {
     bo->nzer = str::str2long(s, ok);
     bo->den = str::str2long(s + 1, ok);
@@ -489,6 +492,7 @@ public:
 private:
   void clear_lden(const int o);
   inline void WriteCounts_BOhelper(FILE *out, bo_c_fp *bo) { assert(false); }
+  inline int BO_fields() { return 3; }
   inline void ReadCounts_BOhelper(bo_c_fp *bo, std::string *s, bool *ok) {
     assert(false);
   }
@@ -530,6 +534,7 @@ private:
     fprintf(out, "%ld %ld %ld %ld %ld", (long)bo->nzer[0], (long)bo->nzer[1],
             (long)bo->nzer[2], (long)bo->den, (long)bo->prune_den);
   }
+  inline int BO_fields() { return 5; }
   inline void ReadCounts_BOhelper(bo_3c *bo, std::string *s, bool *ok) {
     bo->nzer[0] = str::str2long(s, ok);
     // fprintf(stderr,"nz %s=%d(%d)\n",s->c_str(), bo->nzer[0], ok);
@@ -555,6 +560,7 @@ class MultiOrderCounts_3nzer_fp
 
 private:
   inline void WriteCounts_BOhelper(FILE *out, bo_3c_fp *bo) { assert(false); }
+  inline int BO_fields() { return 5; }
   inline void ReadCounts_BOhelper(bo_3c_fp *bo, std::string *s, bool *ok) {
     assert(false);
   }
diff --git a/src/MultiOrderCounts_tmpl.hh b/src/MultiOrderCounts_tmpl.hh
index 6fb1447..20ae3dd 100644
--- a/src/MultiOrderCounts_tmpl.hh
+++ b/src/MultiOrderCounts_tmpl.hh
@@ -292,8 +292,9 @@ void MultiOrderCounts_Generic_BOT<KT, CT, BOT>::WriteCounts(FILE *out) {
 }
 
 template <typename KT, typename CT, typename BOT>
-void MultiOrderCounts_Generic_BOT<KT, CT, BOT>::ReadCounts(FILE *in) {
-  int order = -1;
+void MultiOrderCounts_Generic_BOT<KT, CT, BOT>::ReadCounts(FILE *in,
+                                                           int num_words) {
+  int order = 0;
   std::string line;
   std::vector<KT> v;
   std::vector<std::string> vec;
@@ -320,10 +321,15 @@ void MultiOrderCounts_Generic_BOT<KT, CT, BOT>::ReadCounts(FILE *in) {
     if (line[0] == '\\') {
       str::split(&line, "-", true, &vec);
       vec[0][0] = ' ';
+      const int prev_order = order;
       order = str::str2long(&vec[0], &ok);
+      if (vec.size() < 2 || order < 1 || order > prev_order + 1)
+        ok = false;
       // fprintf(stderr,"ordered %s=%d(%d)\n", vec[0].c_str(), order, ok);
       // fprintf(stderr,"comparestring *%s*\n", vec[1].c_str());
-      if (!strcmp("gram counts", vec[1].c_str())) {
+      if (!ok) {
+        // The section line makes no sense
+      } else if (!strcmp("gram counts", vec[1].c_str())) {
         read_backoffs = false;
         v.resize(order);
       } else if (!strcmp("gram backoffs", vec[1].c_str())) {
@@ -341,12 +347,24 @@ void MultiOrderCounts_Generic_BOT<KT, CT, BOT>::ReadCounts(FILE *in) {
 
     str::split(&line, " \t", true, &vec);
     // fprintf(stderr,"ORDER %d\n", order);
+    // "[ indices ] numbers"
+    if (order < 1 ||
+        vec.size() <
+            (read_backoffs ? order + 1 + this->BO_fields() : order + 3)) {
+      fprintf(stderr, "Error reading line %ld:\n%s\nExit.\n", lineno,
+              line.c_str());
+      exit(-1);
+    }
+    for (size_t i = 0; i < v.size(); i++) {
+      const long idx = str::str2long(&vec[i + 1], &ok);
+      v[i] = idx;
+      if (idx < 0 || (long)v[i] != idx || (num_words && idx >= num_words))
+        ok = false;
+    }
     if (!read_backoffs) {
-      for (int i = 1; i <= order; i++) {
-        v[i - 1] = str::str2long(&vec[i], &ok);
-        // fprintf(stderr,"Putting %s=%d, %d\n", vec[i].c_str(), v[i-1], ok);
-      }
       this->read_num(&val, &vec[order + 2], &ok);
+      if (num_words && val < 0)
+        ok = false;
       // fprintf(stderr,"Val %s=%d (%d)\n", vec[order+2].c_str(), val, ok);
       if (!ok) {
         fprintf(stderr, "Error reading line %ld:\n%s\nExit2.\n", lineno,
@@ -358,9 +376,6 @@ void MultiOrderCounts_Generic_BOT<KT, CT, BOT>::ReadCounts(FILE *in) {
       this->SetCount(v, val);
       continue;
     }
-    for (int i = 1; i < order; i++) {
-      v[i - 1] = str::str2long(&vec[i], &ok);
-    }
     ReadCounts_BOhelper(&bo_val, &vec[order + 1], &ok);
     if (!ok) {
       fprintf(stderr, "Error reading line %ld. Exit3.\n", lineno);
@@ -368,6 +383,15 @@ void MultiOrderCounts_Generic_BOT<KT, CT, BOT>::ReadCounts(FILE *in) {
     }
     SetBackoff(order, &v[0], &bo_val);
   }
+
+  // Every order needs both tables
+  const int max_order = std::max(this->m_counts.size(), m_backoffs.size()) - 1;
+  if (max_order < 1) {
+    fprintf(stderr, "No counts in the counts file.\nExit.\n");
+    exit(-1);
+  }
+  this->allocate_matrices_counts(max_order);
+  allocate_matrices_backoffs(max_order);
 }
 
 template <typename KT, typename CT, typename BOT>
diff --git a/src/NgramCounts_tmpl.hh b/src/NgramCounts_tmpl.hh
index e610d62..3e8de34 100644
--- a/src/NgramCounts_tmpl.hh
+++ b/src/NgramCounts_tmpl.hh
@@ -151,28 +151,37 @@ void NgramCounts_t<K, T>::read(FILE *countsfile, FILE *vocabfile) {
   char tmpchar[MAX_WLEN + 1];
   while (fgets(sbuf, MAX_WLEN, countsfile)) {
     // fprintf(stderr,"Looking at line %s",sbuf);
+    bool ok = true;
     cptr = strtok(sbuf, " ");
-    for (int i = 0; i < m_ds.size(); i++) {
+    for (int i = 0; ok && i < m_ds.size(); i++) {
       if (!cptr) {
-        fprintf(stderr, "Problem with input, skip entry %s\n", sbuf);
+        ok = false;
         break;
       }
       if (vocabfile) {
         // fprintf(stderr,"Adding cptr %s :",cptr);
         // fprintf(stderr,"%s\n", tmp_vocab.word(atoi(cptr)).c_str());
         int tmp = atoi(cptr);
-        if (tmp >= vocab->num_words()) {
+        if (tmp < 0 || tmp >= vocab->num_words()) {
           fprintf(stderr, "Errors in input, word index %d unknown\n", tmp);
-          continue;
+          ok = false;
         }
         m_ds[i] = tmp;
-      } else {
-        sscanf(cptr, "%s", tmpchar);
+      } else if (1 == sscanf(cptr, "%s", tmpchar)) {
         m_ds[i] = vocab->add_word(tmpchar);
+      } else {
+        ok = false;
       }
       cptr = strtok(NULL, " ");
     }
-    counts->increment(&m_ds[0], ascii2num(cptr, (T *)NULL));
+    T value = 0;
+    if (cptr)
+      value = ascii2num(cptr, (T *)NULL);
+    if (!ok || value <= 0) {
+      fprintf(stderr, "Problem with input, skip entry %s\n", sbuf);
+      continue;
+    }
+    counts->increment(&m_ds[0], value);
   }
 }
 
-- 
2.43.0


From ec8b3f47ebfc6abc9f3f2e0216a01f9f3927e04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:32 +0000
Subject: [PATCH 33/35] fix: 16-bit keys refuse vocabularies they cannot number

---
 src/HashGram_tmpl.hh | 6 ++++++
 src/InterKn.hh       | 7 +++++++
 src/InterKn_tmpl.hh  | 8 +++-----
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/HashGram_tmpl.hh b/src/HashGram_tmpl.hh
index 64a4b04..52a0794 100644
--- a/src/HashGram_tmpl.hh
+++ b/src/HashGram_tmpl.hh
@@ -2,6 +2,8 @@
 #include "HashGram.hh"
 #include "def.hh"
 #include "str.hh"
+#include <limits>
+#include <stdlib.h>
 
 template <typename KT> HashGram_t<KT>::~HashGram_t() {
   for (size_t i = 1; i < probs.size(); i++)
@@ -35,6 +37,10 @@ template <typename KT> void HashGram_t<KT>::read_real(FILE *file) {
   }
   while (areader.next_gram(file, line, tmp_gram, log_prob, back_off)) {
     int order = tmp_gram.size();
+    if (order == 1 && tmp_gram[0] > (int)std::numeric_limits<KT>::max()) {
+      fprintf(stderr, "Too big vocabulary for --smallvocab. Exit.\n");
+      exit(1);
+    }
     // Inefficiency due to abstracting ArpaReader out
     std::vector<KT> gram(tmp_gram.begin(), tmp_gram.end());
     if (log_prob > MINLOGPROB) {
diff --git a/src/InterKn.hh b/src/InterKn.hh
index 585a0cf..fe74387 100644
--- a/src/InterKn.hh
+++ b/src/InterKn.hh
@@ -118,6 +118,13 @@ protected:
   Storage<KT> *m_optistorage;
   inline bool KT_is_short(int *x) { return (false); }
   inline bool KT_is_short(unsigned short *x) { return (true); }
+  inline void check_vocab_size() {
+    if (KT_is_short((KT *)NULL) && this->vocab.num_words() > 65534) {
+      fprintf(stderr, "Too big vocabulary for --smallvocab (%d). Exit.\n",
+              this->vocab.num_words());
+      exit(-1);
+    }
+  }
 };
 
 template <typename KT, typename CT> class InterKn_t : public InterKn_k<KT> {
diff --git a/src/InterKn_tmpl.hh b/src/InterKn_tmpl.hh
index a3446e6..1373187 100644
--- a/src/InterKn_tmpl.hh
+++ b/src/InterKn_tmpl.hh
@@ -692,6 +692,7 @@ void InterKn_t<KT, CT>::constructor_helper(
       NgramCounts_t<KT, CT> *ng = new NgramCounts_t<KT, CT>(order, 0, hashsize);
       ng->use_vocabulary(&this->vocab);
       ng->read(datain.file, vocabin.file);
+      this->check_vocab_size();
       if (ng->counts->num_entries() == 0) {
         fprintf(stderr, "No counts in the counts file. Exit.\n");
         exit(-1);
@@ -701,6 +702,7 @@ void InterKn_t<KT, CT>::constructor_helper(
       /* The counts include all orders and have already been KN-discounted */
       fprintf(stderr, "Reading previously KN-discounted counts\n");
       this->vocab.read(vocabin.file);
+      this->check_vocab_size();
       this->moc->ReadCounts(datain.file, this->vocab.num_words());
     }
     datain.close();
@@ -713,14 +715,10 @@ void InterKn_t<KT, CT>::constructor_helper(
       if (this->vocab.num_words() > 1)
         fprintf(stderr, "Warning: something is going wrong. The vocabularies "
                         "must be the same (not checked)\n");
-      if (this->vocab.num_words() > 65534) {
-        fprintf(stderr, "Too big vocabulary for --smallvocab (%d). Exit.\n",
-                this->vocab.num_words());
-        exit(-1);
-      }
       io::Stream vocabin(vocabname, "r");
       this->vocab.read(vocabin.file);
       vocabin.close();
+      this->check_vocab_size();
       if (this->vocab.num_words() < 1) {
         fprintf(stderr, "Warning: no words from vocab file? Exit\n");
         exit(-1);
-- 
2.43.0


From ebcb0e39b3d3ab47d4ee31e389e71bc2fbde2d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:35 +0000
Subject: [PATCH 34/35] fix: command lines with wrong arguments or integers out
 of range end with a failing status

---
 src/conf.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/conf.cc b/src/conf.cc
index 5a98143..1604478 100644
--- a/src/conf.cc
+++ b/src/conf.cc
@@ -2,14 +2,16 @@
 #include "str.hh"
 #include <assert.h>
 #include <deque>
+#include <limits.h>
 #include <stdlib.h>
 
 namespace conf {
 
 int Option::get_int() const {
   char *endptr;
-  int return_value = strtol(value.c_str(), &endptr, 10);
-  if (endptr == value.c_str() || *endptr != 0) {
+  const long return_value = strtol(value.c_str(), &endptr, 10);
+  if (endptr == value.c_str() || *endptr != 0 || return_value < INT_MIN ||
+      return_value > INT_MAX) {
     fprintf(stderr, "invalid value for option %s: %s\n", name.c_str(),
             value.c_str());
     exit(1);
@@ -226,7 +228,7 @@ void Config::parse(int argc, char *argv[], int num_args, bool override) {
     fprintf(stderr, "Got %d arguments, need %d.\n", (int)arguments.size(),
             num_requested_arguments);
     fputs(help_string().c_str(), stderr);
-    exit(0);
+    exit(1);
   }
 
   check_required();
-- 
2.43.0


From 3e10e195045b74c9d8e4ca83242446670bad709b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:15 +0000
Subject: [PATCH 35/35] fix: cutoffs that do not fit an int are refused

---
 src/str.hh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/str.hh b/src/str.hh
index 6052f5e..e99338c 100644
--- a/src/str.hh
+++ b/src/str.hh
@@ -99,8 +99,12 @@ template <class T> std::vector<T> long_vec(const std::string str, bool *ok) {
   std::vector<std::string> str_vec;
   str::split(&str, " \t\n", true, &str_vec);
   std::vector<T> vec(str_vec.size());
-  for (size_t i = 0; i < str_vec.size(); i++)
-    vec[i] = str::str2long(str_vec[i].c_str(), ok);
+  for (size_t i = 0; i < str_vec.size(); i++) {
+    const long value = str::str2long(str_vec[i].c_str(), ok);
+    vec[i] = value;
+    if (vec[i] != value)
+      *ok = false;
+  }
   return vec;
 }
 }; // namespace str
-- 
2.43.0

