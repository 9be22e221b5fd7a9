From 702aa4f8be11f9111d2a71e912da3abbaa2f59e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:11 +0000
Subject: [PATCH 01/22] fix: reject truncated or unreadable snapshots instead
 of loading zero-padded or uninitialised data

readViaSStream neither checked whether the snapshot size could be read (n was then used
uninitialised) nor whether the announced number of bytes was present (the missing ones were
silently taken to be zero), so a torn state file could be loaded as a wrong state.
---
 CPPQEDutils/Trajectory.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/CPPQEDutils/Trajectory.h b/CPPQEDutils/Trajectory.h
index bc60033..ed01fde 100644
--- a/CPPQEDutils/Trajectory.h
+++ b/CPPQEDutils/Trajectory.h
@@ -398,8 +398,10 @@ void readViaSStream(Trajectory& traj, std::shared_ptr<std::istream> ifs)
   istringstream iss(ios_base::binary);
   {
     string buffer;
-    streamsize n; *ifs>>n; buffer.resize(n);
-    ifs->read(&buffer[0],n);
+    streamsize n;
+    if ( !(*ifs>>n) || n<0 ) throw runtime_error("State file corrupt or truncated: snapshot size cannot be read");
+    buffer.resize(n);
+    if ( !ifs->read(&buffer[0],n) ) throw runtime_error("State file corrupt or truncated: snapshot incomplete");
     iss.str(buffer);
   }
   iarchive stateArchive(iss);
-- 
2.43.0


From 0d40ba5c7f251d4b8689701ffe88b42776417a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:11 +0000
Subject: [PATCH 02/22] fix: surface write errors of the data and state files
 instead of masking them or spinning forever

On a full disk or an I/O error run() used to return as if everything had been written: neither
the trajectory stream nor the state stream was ever checked, and the compressed tail of the
state file was only written in a destructor. With larger states the compressor even kept
retrying forever. Now each streamed line and snapshot is checked, and the state file is closed
explicitly, an exception being raised if not everything could be written.
---
 CPPQEDutils/Trajectory.cc | 37 +++++++++++++++++++++++++++++++++++--
 CPPQEDutils/Trajectory.h  | 19 ++++++++++++++++---
 2 files changed, 51 insertions(+), 5 deletions(-)

diff --git a/CPPQEDutils/Trajectory.cc b/CPPQEDutils/Trajectory.cc
index 907d6ae..4c08752 100644
--- a/CPPQEDutils/Trajectory.cc
+++ b/CPPQEDutils/Trajectory.cc
@@ -26,6 +26,31 @@ bool isbz2(const string filename)
   return header=="BZh";
 }
 
+
+// Unlike boost::iostreams::file_sink, this raises an exception if the data cannot be written.
+// (Otherwise, errors are masked, or, what is worse, the compressor tries to get rid of its output forever.)
+class CheckedFileSink
+{
+public:
+  using char_type=char;
+  struct category : boost::iostreams::sink_tag, boost::iostreams::closable_tag {};
+
+  CheckedFileSink(const string& filename, ios_base::openmode mode) : filename_{filename}, file_{make_shared<ofstream>(filename,mode)} {}
+
+  bool is_open() const {return file_->is_open();}
+
+  streamsize write(const char* s, streamsize n) {file_->write(s,n); check(); return n;}
+
+  void close() {file_->close(); check();}
+
+private:
+  void check() const {if (!*file_) throw runtime_error("State file writing error: "+filename_);}
+
+  string filename_;
+  shared_ptr<ofstream> file_;
+
+};
+
 }
 
 #endif // DO_NOT_USE_BOOST_COMPRESSION
@@ -63,7 +88,7 @@ shared_ptr<ostream> cppqedutils::trajectory::openStateFileWriting(const string &
 #else
   using namespace boost::iostreams;
   shared_ptr<filtering_ostream> out = make_shared<filtering_ostream>();
-  file_sink file(filename, mode | ios_base::binary );
+  CheckedFileSink file(filename, mode | ios_base::binary );
   if (!file.is_open()) throw StateFileOpeningException(filename);
   if (isbz2(filename)) out->push(bzip2_compressor());
   out->push(file);
@@ -72,4 +97,12 @@ shared_ptr<ostream> cppqedutils::trajectory::openStateFileWriting(const string &
 }
 
 
-
+void cppqedutils::trajectory::closeStateFileWriting(ostream& os)
+{
+#ifdef DO_NOT_USE_BOOST_COMPRESSION
+  if (auto* ofs=dynamic_cast<ofstream*>(&os)) ofs->close();
+#else
+  if (auto* out=dynamic_cast<boost::iostreams::filtering_ostream*>(&os)) out->reset();
+#endif // DO_NOT_USE_BOOST_COMPRESSION
+  if (os.fail()) throw runtime_error("State file writing error");
+}
diff --git a/CPPQEDutils/Trajectory.h b/CPPQEDutils/Trajectory.h
index ed01fde..3cfe2b0 100644
--- a/CPPQEDutils/Trajectory.h
+++ b/CPPQEDutils/Trajectory.h
@@ -364,6 +364,11 @@ std::shared_ptr<std::istream> openStateFileReading(const std::string &filename);
 std::shared_ptr<std::ostream> openStateFileWriting(const std::string &filename, const std::ios_base::openmode mode=std::ios_base::app);
 
 
+/// Flushes and closes a stream obtained from openStateFileWriting(), raising an exception if not everything could be written
+/** In the case of compression, the bulk of the data is written only at this point, so that leaving this to the destructor would mask all errors. */
+void closeStateFileWriting(std::ostream& os);
+
+
 template <typename Trajectory>
 struct ReadState
 {
@@ -421,6 +426,7 @@ void writeViaSStream(Trajectory& traj, // cannot be const, because traj.stateIO
     {
       const string& buffer=oss.str();
       *ofs<<buffer.size(); ofs->write(&buffer[0],buffer.size());
+      if (!*ofs) throw runtime_error("State file writing error");
     }
   }
 }
@@ -528,6 +534,8 @@ cppqedutils::trajectory::run(TRAJ&& traj, LENGTH length, DELTA streamFreq, unsig
   IO_Manipulator::_(os);
   os<<setprecision(formdouble::actualPrecision(precision));
 
+  const auto checkOutstream = [&]() {if (!os.flush()) throw runtime_error("Trajectory stream writing error: "+trajectoryFileName);};
+
   CommentingStream commentingStream{outstream}; commentingStream<<setprecision(formdouble::actualPrecision(precision));
   
   ///////////////////////
@@ -545,13 +553,13 @@ cppqedutils::trajectory::run(TRAJ&& traj, LENGTH length, DELTA streamFreq, unsig
       commentingStream<<"Continuing from time "<<traj.getTime()<<" up to time "<<timeToReach<<endl;
   }
 
-  if (!timeToReach) {stream(traj,os,precision); return res;}
+  if (!timeToReach) {stream(traj,os,precision); checkOutstream(); return res;}
 
   //////////////////////////////
   // Mid section: the actual run
   //////////////////////////////
 
-  const std::shared_ptr<ostream> ofs = !streamToFile ? std::make_shared<ofstream>() : openStateFileWriting(stateFileName);
+  const std::shared_ptr<ostream> ofs = streamToFile ? openStateFileWriting(stateFileName) : nullptr;
 
   bool
     stateSaved=false,  // signifies whether the state has already been saved for the actual time instant of the trajectory
@@ -590,6 +598,7 @@ cppqedutils::trajectory::run(TRAJ&& traj, LENGTH length, DELTA streamFreq, unsig
         if (count || !continuing) {
           arrayStreamed=true;
           auto streamReturn{stream(traj,os,precision)};
+          checkOutstream();
           if (returnStreamedArray) res.emplace_back(traj.getTime(),traj.getDtDid(),get<1>(streamReturn));
           autostopHandler(get<1>(streamReturn));
         }
@@ -606,7 +615,11 @@ cppqedutils::trajectory::run(TRAJ&& traj, LENGTH length, DELTA streamFreq, unsig
   
   traj.logOnEnd(commentingStream);
   if (!stateSaved) writeViaSStream(traj,ofs);
-  
+
+  if (ofs) closeStateFileWriting(*ofs);
+
+  logStream.flush(); commentingStream.flush(); checkOutstream();
+
   return res;
   
 }
-- 
2.43.0


From 700c1b11c64418261ba701aa8240d65e4eec2c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:03 +0000
Subject: [PATCH 03/22] fix: report write errors of the commenting stream
 instead of retrying forever on a failed stream

---
 CPPQEDutils/CommentingStream.h | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/CPPQEDutils/CommentingStream.h b/CPPQEDutils/CommentingStream.h
index 37decc3..3967447 100644
--- a/CPPQEDutils/CommentingStream.h
+++ b/CPPQEDutils/CommentingStream.h
@@ -412,6 +412,28 @@ public:
 
 typedef boost::iostreams::finite_state_filter<CommentingMachine> CommentingFilter;
 
+/// Forwards to the underlying stream. A failing stream is reported as an exception, since a sink that merely consumes less than offered makes Boost.Iostreams retry indefinitely.
+class ForwardingSink
+{
+public:
+  typedef char char_type;
+  struct category : boost::iostreams::sink_tag, boost::iostreams::flushable_tag {};
+
+  explicit ForwardingSink(std::ostream& os) : os_{&os} {}
+
+  std::streamsize write(const char* s, std::streamsize n)
+  {
+    if (!os_->write(s,n)) throw std::ios_base::failure("CommentingStream: write error");
+    return n;
+  }
+
+  bool flush() {return bool(os_->flush());}
+
+private:
+  std::ostream* os_;
+
+};
+
 } // commentingstream
 
 class CommentingStream : public boost::iostreams::filtering_ostream
@@ -419,9 +441,9 @@ class CommentingStream : public boost::iostreams::filtering_ostream
 public:
   using OstreamPtr=std::shared_ptr<std::ostream>;
   
-  explicit CommentingStream(OstreamPtr os) : os_{os} {push(commentingstream::CommentingFilter()); push(*os);}
+  explicit CommentingStream(OstreamPtr os) : os_{os} {push(commentingstream::CommentingFilter()); push(commentingstream::ForwardingSink(*os_));}
   
-  void set(OstreamPtr os) {os_=os; reset(); push(commentingstream::CommentingFilter()); push(*os_);}
+  void set(OstreamPtr os) {os_=os; reset(); push(commentingstream::CommentingFilter()); push(commentingstream::ForwardingSink(*os_));}
 
 private:
   std::shared_ptr<std::ostream> os_;
-- 
2.43.0


From ae6d9c0c8fb43ca76b1ed6900d8d6c0e078215e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:01 +0000
Subject: [PATCH 04/22] fix: refuse to load a state of different dimensions
 instead of silently continuing with it

---
 CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h   |  6 +++---
 CPPQEDcore/quantumtrajectory/Master.h            |  6 +++---
 CPPQEDcore/quantumtrajectory/QuantumTrajectory.h | 12 ++++++++++++
 CPPQEDutils/Simulated_.h                         | 14 ++++++++++++--
 4 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h b/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
index 1646809..2b0c29e 100644
--- a/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
+++ b/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
@@ -129,7 +129,7 @@ public:
   /// Forwards to structure::Averaged::stream
   auto stream(std::ostream& os, int precision) const {return structure::QuantumSystemWrapper<RANK>::stream(getTime(),psi_,os,precision);}
   
-  auto& readFromArrayOnlyArchive(cppqedutils::iarchive& iar) {StateVectorLow temp; iar & temp; psi_.getArray().reference(temp); return iar;}
+  auto& readFromArrayOnlyArchive(cppqedutils::iarchive& iar) {psi_.getArray().reference(readStateArray(iar,psi_.getArray())); return iar;}
 
   /** structure of MCWF_Trajectory archives:
   * metaData – array – time – ( odeStepper – odeLogger – dtDid – dtTry ) – randomEngine – logger
@@ -137,8 +137,8 @@ public:
   // state should precede time in order to be compatible with array-only archives
   auto& stateIO(cppqedutils::iarchive& iar)
   {
-    StateVectorLow temp;
-    ode_.stateIO(iar & temp & t_) & re_.engine & logger_;
+    StateVectorLow temp(readStateArray(iar,psi_.getArray()));
+    ode_.stateIO(iar & t_) & re_.engine & logger_;
     psi_.getArray().reference(temp);
     t0_=t_; // A very important step!
     return iar;
diff --git a/CPPQEDcore/quantumtrajectory/Master.h b/CPPQEDcore/quantumtrajectory/Master.h
index 8320520..73714e8 100644
--- a/CPPQEDcore/quantumtrajectory/Master.h
+++ b/CPPQEDcore/quantumtrajectory/Master.h
@@ -84,7 +84,7 @@ public:
   
   auto stream(std::ostream& os, int precision) const {return dos_(t_,rho_,os,precision);}
   
-  auto& readFromArrayOnlyArchive(cppqedutils::iarchive& iar) {DensityOperatorLow temp; iar & temp; rho_.getArray().reference(temp); return iar;}
+  auto& readFromArrayOnlyArchive(cppqedutils::iarchive& iar) {rho_.getArray().reference(readStateArray(iar,rho_.getArray())); return iar;}
 
   /** structure of Master archives:
   * metaData – array – time – ( odeStepper – odeLogger – dtDid – dtTry )
@@ -92,8 +92,8 @@ public:
   // state should precede time in order to be compatible with array-only archives
   auto& stateIO(cppqedutils::iarchive& iar)
   {
-    DensityOperatorLow temp;
-    ode_.stateIO(iar & temp & t_);
+    DensityOperatorLow temp(readStateArray(iar,rho_.getArray()));
+    ode_.stateIO(iar & t_);
     rho_.getArray().reference(temp);
     t0_=t_; // A very important step!
     return iar;
diff --git a/CPPQEDcore/quantumtrajectory/QuantumTrajectory.h b/CPPQEDcore/quantumtrajectory/QuantumTrajectory.h
index 9405384..3675b0b 100644
--- a/CPPQEDcore/quantumtrajectory/QuantumTrajectory.h
+++ b/CPPQEDcore/quantumtrajectory/QuantumTrajectory.h
@@ -26,6 +26,18 @@ inline double initialTimeStep(structure::QuantumSystemPtr<RANK> qs)
 }
 
 
+/// Reads the array heading a state archive, verifying that it has the shape of the array it is about to replace
+template<typename ARRAY>
+ARRAY readStateArray(cppqedutils::iarchive& iar, const ARRAY& present)
+{
+  ARRAY archived;
+  iar & archived;
+  for (int i=0; i<present.rank(); ++i)
+    if (archived.extent(i)!=present.extent(i)) throw DimensionalityMismatchException("between archived and present state");
+  return archived;
+}
+
+
 } // quantumtrajectory
 
 #endif // CPPQEDCORE_QUANTUMTRAJECTORY_QUANTUMTRAJECTORY_H_INCLUDED
diff --git a/CPPQEDutils/Simulated_.h b/CPPQEDutils/Simulated_.h
index a6a1488..88f8631 100644
--- a/CPPQEDutils/Simulated_.h
+++ b/CPPQEDutils/Simulated_.h
@@ -54,19 +54,29 @@ public:
     return {os,Copy<StateType>::_(state_)};
   }
 
-  iarchive& readFromArrayOnlyArchive(iarchive& iar) {return iar & state_;}
+  iarchive& readFromArrayOnlyArchive(iarchive& iar) {return arrayIO(iar);}
 
   /** structure of Simulated archives:
    * metaData – array – time – ( odeStepper – odeLogger – dtDid – dtTry )
    */
   template <typename Archive>
-  Archive& stateIO(Archive& ar) {return ode_.stateIO(ar & state_ & t_);} // state should precede time in order to be compatible with array-only archives
+  Archive& stateIO(Archive& ar) {return ode_.stateIO(arrayIO(ar) & t_);} // state should precede time in order to be compatible with array-only archives
   
   std::ostream& streamKey(std::ostream& os) const {size_t i=3; return keyPrinter_.stream(os,i);}
 
   std::ostream& logOnEnd(std::ostream& os) const {return ode_.logOnEnd(os);}
   
 private:
+  /// An archived array whose size differs from that of the present state must come from another system
+  template <typename Archive>
+  Archive& arrayIO(Archive& ar)
+  {
+    const size_t size=SubscriptLimit<StateType>::_(state_);
+    ar & state_;
+    if (size!=SubscriptLimit<StateType>::_(state_)) throw std::runtime_error("Size mismatch between archived and present state in Simulated");
+    return ar;
+  }
+
   double t_=0.;
   
   StateType state_;
-- 
2.43.0


From 60dc14ef7ca7a4139b79fbd7f724450884360560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:16 +0000
Subject: [PATCH 05/22] fix: restore the reference time of the interaction
 picture when a Monte Carlo step is retraced

---
 CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h b/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
index 2b0c29e..9411d09 100644
--- a/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
+++ b/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
@@ -348,7 +348,7 @@ template<int RANK, typename ODE_Engine, typename RandomEngine>
 void quantumtrajectory::MCWF_Trajectory<RANK,ODE_Engine,RandomEngine>::step(double Dt, std::ostream& logStream)
 {
   const StateVector psiCache(psi_); // deep copy
-  double tCache=t_, dtDidCache=getDtDid();
+  double tCache=t_, t0Cache=t0_, dtDidCache=getDtDid();
 
   coherentTimeDevelopment(Dt,logStream);
 
@@ -358,7 +358,7 @@ void quantumtrajectory::MCWF_Trajectory<RANK,ODE_Engine,RandomEngine>::step(doub
     IndexSVL_tuples specialRates=calculateSpecialRates(&rates);
 
     while (manageTimeStep(rates,tCache,dtDidCache,logStream)) {
-      psi_=psiCache;
+      psi_=psiCache; t0_=t0Cache;
       coherentTimeDevelopment(Dt,logStream); // the next try
       rates=li->rates(t_,psi_);
       specialRates=calculateSpecialRates(&rates);
-- 
2.43.0


From c3357c127c23751630b04d588080701bff545e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:04 +0000
Subject: [PATCH 06/22] fix: the Kerr term of a mode enters the same way in
 every picture

---
 CPPQEDelements/frees/Mode.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/CPPQEDelements/frees/Mode.cc b/CPPQEDelements/frees/Mode.cc
index 1438922..fd3431a 100644
--- a/CPPQEDelements/frees/Mode.cc
+++ b/CPPQEDelements/frees/Mode.cc
@@ -41,7 +41,7 @@ Exact::Exact(dcomp zI, double omegaKerr, size_t dim)
 
 void Exact::updateU(Time t) const
 {
-  getDiagonal()=exp(-zI_*(double(t)*blitz::tensor::i));
+  getDiagonal()=exp(double(t)*mainDiagonal(-zI_,omegaKerr_,getDiagonal().size()));
 }
 
 
@@ -76,7 +76,7 @@ Tridiagonal hOverI(dcomp z, dcomp eta, double omegaKerr, size_t dim)
 // Here we use runtime dispatching because runtime dispatching will anyway happen at the latest in some maker function.
 {
   bool isPumped=isNonZero(eta);
-  if (isNonZero(z)) {
+  if (isNonZero(z) || omegaKerr) {
     Tridiagonal res(mainDiagonal(-z,omegaKerr,dim));
     if (isPumped) return res+pumping(eta,dim);
     else return res;
@@ -94,7 +94,8 @@ Tridiagonal hOverI(dcomp z, dcomp eta, double omegaKerr, size_t dim)
 
 template<> template<>
 Hamiltonian<true >::Hamiltonian(dcomp zSch, dcomp zI, dcomp eta, double omegaKerr, double omegaKerrAlter, size_t dim)
-  : Base(furnishWithFreqs(hOverI(zSch,eta,omegaKerr,dim),mainDiagonal(zI,omegaKerr,dim))), Exact(zI,omegaKerr,dim), zSch_(zSch), eta_(eta), dim_(dim)
+  : Base(furnishWithFreqs(hOverI(zSch,eta,omegaKerr,dim),mainDiagonal(zI,0,dim))), Exact(zI,0,dim), // the Kerr term is contained by the Hamiltonian
+    zSch_(zSch), eta_(eta), dim_(dim)
 {
   FILLKERR
 }
@@ -289,7 +290,7 @@ const Tridiagonal aop(Ptr mode)
 {
   size_t dim=mode->getDimension();
   Tridiagonal res(aop(dim));
-  if (const auto exact=dynamic_cast<const mode::Exact*>(mode.get())) res.furnishWithFreqs(mainDiagonal(exact->get_zI(),exact->get_omegaKerr(),dim));
+  if (const auto exact=dynamic_cast<const mode::Exact*>(mode.get())) res.furnishWithFreqs(mainDiagonal(exact->get_zI(),-exact->get_omegaKerr(),dim));
   return res;
 }
 
-- 
2.43.0


From 05d6dfc870955abe60c2f34e0391f7d4ee26e3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:26 +0000
Subject: [PATCH 07/22] fix: find the jumps of the interaction in a binary
 system whose second constituent has none

---
 CPPQEDcore/composites/BinarySystem.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CPPQEDcore/composites/BinarySystem.cc b/CPPQEDcore/composites/BinarySystem.cc
index f4a2143..743037b 100644
--- a/CPPQEDcore/composites/BinarySystem.cc
+++ b/CPPQEDcore/composites/BinarySystem.cc
@@ -226,8 +226,8 @@ void binary::Liouvillean::actWithJ_v(double t, StateVectorLow& psi, size_t i) co
     return;
   }
 
-  i-=n;  
-  if (li1 && i<(n=free1_.nAvr<LA_Li>())) {
+  i-=n; n=free1_.nAvr<LA_Li>();
+  if (li1 && i<n) {
     for(auto& psiS : fullRange<V1>(psi)) li1->actWithJ(t,psiS,i);
     return;
   }
@@ -260,8 +260,8 @@ void binary::Liouvillean::actWithSuperoperator_v(double t, const DensityOperator
     return;
   }
 
-  i-=n;  
-  if (li1 && i<(n=free1_.nAvr<LA_Li>())) {
+  i-=n; n=free1_.nAvr<LA_Li>();
+  if (li1 && i<n) {
     boost::range::for_each(fullRange<V1>(rho),fullRange<V1>(drhodt),lambda(li1));
     return;
   }
-- 
2.43.0


From 5b7a6d8c538de63c03127818dcebfa298d9136d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:35 +0000
Subject: [PATCH 08/22] fix: phase diffusion with different coefficients for
 each level in the Master equation

---
 CPPQEDcore/structure/ElementLiouvillean.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/CPPQEDcore/structure/ElementLiouvillean.h b/CPPQEDcore/structure/ElementLiouvillean.h
index f09e3e9..2f788c8 100644
--- a/CPPQEDcore/structure/ElementLiouvillean.h
+++ b/CPPQEDcore/structure/ElementLiouvillean.h
@@ -366,14 +366,10 @@ protected:
   {
     if (rho.extent(0)!=dim_ || rho.extent(1)!=dim_) throw ElementLiouvilleanDiffusiveDimensionalityMismatchException("In actWithSuperoperator_v");
     if (lindbladNo<base_nAvr_) Base::actWithSuperoperator_v(t,rho,drhodt,lindbladNo);
-    else if(lindbladNo==base_nAvr_) { // with this single case we cover the action of all the diffusive Lindblads
-      for (int m=0; m<dim_; ++m) {
-        drhodt(m,m)+=2*diffusionCoeffs_[lindbladNo-base_nAvr_]*rho(m,m);
-        for (int n=m+1; n<dim_; ++n) {
-          drhodt(m,n)-=6*diffusionCoeffs_[lindbladNo-base_nAvr_]*rho(m,n);
-          drhodt(n,m)-=6*diffusionCoeffs_[lindbladNo-base_nAvr_]*rho(n,m);
-        }
-      }
+    else {
+      const int k=lindbladNo-base_nAvr_;
+      for (int m=0; m<dim_; ++m) for (int n=0; n<dim_; ++n)
+        drhodt(m,n)+=((m==k)==(n==k) ? 2. : -2.)*diffusionCoeffs_[k]*rho(m,n);
     }
   }
 
-- 
2.43.0


From 2ec39b3d9695ce7019efffdbc321a4e470879a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:57 +0000
Subject: [PATCH 09/22] fix: the trace of a pure state as density operator is
 the square of its norm

---
 CPPQEDcore/quantumdata/StateVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDcore/quantumdata/StateVector.h b/CPPQEDcore/quantumdata/StateVector.h
index f637880..57640f3 100644
--- a/CPPQEDcore/quantumdata/StateVector.h
+++ b/CPPQEDcore/quantumdata/StateVector.h
@@ -191,7 +191,7 @@ public:
 private:
   const dcomp index(const Idx& i, const Idx& j) const override {return getArray()(i)*conj(getArray()(j));} ///< This function implements the LazyDensityOperator interface in a dyadic-product way.
   
-  double trace_v() const override {return norm();} ///< A straightforward implementation of a LazyDensityOperator virtual
+  double trace_v() const override {return cppqedutils::sqr(norm());} ///< A straightforward implementation of a LazyDensityOperator virtual
   
 };
 
-- 
2.43.0


From df5a3149f2ae8a5e5543431583dc2d18fa255981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:57 +0000
Subject: [PATCH 10/22] fix: an explicitly time-dependent Hamiltonian without
 exact part keeps its time origin in the Master equation and on continuation

---
 CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h | 2 +-
 CPPQEDcore/quantumtrajectory/Master.h          | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h b/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
index 9411d09..fde951c 100644
--- a/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
+++ b/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
@@ -140,7 +140,7 @@ public:
     StateVectorLow temp(readStateArray(iar,psi_.getArray()));
     ode_.stateIO(iar & t_) & re_.engine & logger_;
     psi_.getArray().reference(temp);
-    t0_=t_; // A very important step!
+    if (this->getEx()) t0_=t_; // A very important step!
     return iar;
   }
   
diff --git a/CPPQEDcore/quantumtrajectory/Master.h b/CPPQEDcore/quantumtrajectory/Master.h
index 73714e8..21a2fae 100644
--- a/CPPQEDcore/quantumtrajectory/Master.h
+++ b/CPPQEDcore/quantumtrajectory/Master.h
@@ -95,7 +95,7 @@ public:
     DensityOperatorLow temp(readStateArray(iar,rho_.getArray()));
     ode_.stateIO(iar & t_);
     rho_.getArray().reference(temp);
-    t0_=t_; // A very important step!
+    if (this->getEx()) t0_=t_; // A very important step!
     return iar;
   }
   
@@ -190,10 +190,9 @@ void quantumtrajectory::Master<RANK,ODE_Engine,V>::step(double deltaT, std::ostr
     hermitianConjugateSelf(rhoLow);
     for (auto& rhoS : fullRange<Left>(rhoLow)) ex->actWithU(this->getTime(),rhoS,t0_);
     rhoLow=conj(rhoLow);
+    t0_=t_;
   }
 
-  t0_=t_;
-
   // The following "smoothing" of rho_ has proven necessary for the algorithm to remain stable:
   // We make the approximately Hermitian and normalized rho_ exactly so.
 
-- 
2.43.0


From d0e134da64bf73c5cdf9144e5ec2d13ed18dc121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:29 +0000
Subject: [PATCH 11/22] fix: keep the interaction-picture frequencies of a
 direct product when one factor has none

---
 CPPQEDcore/quantumoperator/Tridiagonal.tcc | 39 +++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/CPPQEDcore/quantumoperator/Tridiagonal.tcc b/CPPQEDcore/quantumoperator/Tridiagonal.tcc
index bf70e3f..02e4050 100644
--- a/CPPQEDcore/quantumoperator/Tridiagonal.tcc
+++ b/CPPQEDcore/quantumoperator/Tridiagonal.tcc
@@ -55,6 +55,43 @@ directDiagonals(const typename Tridiagonal<RANK1>::Diagonals& ds1,
 } // NEEDS_WORK this is now runtime, but (a smaller) part of it could be done compile-time. Ugh. Ouch.
 
 
+template<int RANK>
+bool hasFreqs(const Tridiagonal<RANK>& t)
+{
+  for (int i=0; i<Tridiagonal<RANK>::LENGTH; ++i) if (t.getFreqs()(i).size()) return true;
+  return false;
+}
+
+
+/// The frequencies of `t` with the ones not stored (those of the main diagonal or of an operator without exact part) spelled out as zero
+template<int RANK>
+const typename Tridiagonal<RANK>::Diagonals
+completeFreqs(const Tridiagonal<RANK>& t)
+{
+  typename Tridiagonal<RANK>::Diagonals res(blitzplusplus::DeepCopy(),t.getFreqs());
+
+  for (int i=0; i<Tridiagonal<RANK>::LENGTH; ++i) if (!res(i).size()) {
+    blitz::TinyVector<int,RANK> shape; bool isPossible=true;
+    for (int k=RANK-1, ind=i; k>=0; --k, ind/=3) {
+      if (ind%3 && !t.getDifferences()(k)) isPossible=false;
+      shape(k)=int(t.getDimensions()(k))-(ind%3 ? int(t.getDifferences()(k)) : 0);
+    }
+    if (isPossible) {res(i).resize(shape); res(i)=0;}
+  }
+
+  return res;
+}
+
+
+template<int RANK1, int RANK2>
+const typename Tridiagonal<RANK1+RANK2>::Diagonals
+directFreqs(const Tridiagonal<RANK1>& t1, const Tridiagonal<RANK2>& t2)
+{
+  if (!hasFreqs(t1) && !hasFreqs(t2)) return typename Tridiagonal<RANK1+RANK2>::Diagonals();
+  return directDiagonals<false,RANK1,RANK2>(completeFreqs(t1),completeFreqs(t2));
+}
+
+
 } // details
 
 
@@ -64,7 +101,7 @@ Tridiagonal<RANK>::Tridiagonal(const Tridiagonal<RANK2>& t1, const Tridiagonal<R
     diagonals_(blitzplusplus::ShallowCopy(),details::directDiagonals<true,RANK2,RANK-RANK2>(t1.get(),t2.get())),
     differences_(blitzplusplus::concatenateTinies(t1.getDifferences(),t2.getDifferences())),
     tCurrent_(t1.getTime()),
-    freqs_(blitzplusplus::ShallowCopy(),details::directDiagonals<false,RANK2,RANK-RANK2>(t1.getFreqs(),t2.getFreqs()))
+    freqs_(blitzplusplus::ShallowCopy(),details::directFreqs<RANK2,RANK-RANK2>(t1,t2))
 {
   if (t1.getTime()!=t2.getTime()) throw std::runtime_error("Tridiagonal time mismatch");
 }
-- 
2.43.0


From 0698c3211019278b65dc9ff30d9c7a023ccec41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:07 +0000
Subject: [PATCH 12/22] fix: the multilevel Jaynes-Cummings interaction keeps
 its own couplings instead of referring to the parameters it was made from

---
 CPPQEDelements/interactions/MLJC.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CPPQEDelements/interactions/MLJC.h b/CPPQEDelements/interactions/MLJC.h
index cb76e01..8864cce 100644
--- a/CPPQEDelements/interactions/MLJC.h
+++ b/CPPQEDelements/interactions/MLJC.h
@@ -12,6 +12,7 @@
 #include "Sigma.h"
 
 #include <boost/fusion/algorithm/transformation/transform.hpp>
+#include <boost/fusion/container/vector/convert.hpp>
 
 
 /// Class representing an elementary coupling term (a \f$g_{ij}\f$ \ref multilevelactualHamiltonian "here") with a compile-time pair \f$i,j\f$ and a runtime complex value
@@ -99,7 +100,7 @@ private:
 
   static auto modeDynamicsMaker(const VC& gs, MultiLevelPtr ml, mode::Ptr mode)
   {
-    return boost::fusion::transform(gs,CouplingToModeDynamics(ml,mode));
+    return boost::fusion::as_vector(boost::fusion::transform(gs,CouplingToModeDynamics(ml,mode))); // a vector of our own: the view returned by transform refers to gs
     /*Here, the generic lambda doesn’t seem to be a good enough solution, since we need the result of fusion::transform as well (cf. below)
      * [=] (const auto& coupling) -> ModeDynamics<std::decay_t<decltype(coupling)>::first,std::decay_t<decltype(coupling)>::second> {
       using C=std::decay_t<decltype(coupling)>;
-- 
2.43.0


From 7743dd690c72b720aa6326d186db8d65e180fa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:43 +0000
Subject: [PATCH 13/22] fix: a Monte Carlo step without overshoot tolerance is
 not retried forever because of rounding

---
 CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h b/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
index fde951c..5398039 100644
--- a/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
+++ b/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
@@ -301,7 +301,8 @@ manageTimeStep(const structure::Rates& rates, double tCache, double dtDidCache,
   const double liouvilleanSuggestedDtTry=dpLimit_/totalRate;
 
   // Assumption: overshootTolerance_>=1 (equality is the limiting case of no tolerance)
-  if (totalRate*dtDid>overshootTolerance_*dpLimit_) {
+  // The small allowance is for rounding: in the limiting case, a retrial with liouvilleanSuggestedDtTry could otherwise exceed the limit again and again
+  if (totalRate*dtDid>overshootTolerance_*dpLimit_*(1+1e-6)) {
     t_=tCache; ode_.setDtDid(dtDidCache); ode_.setDtTry(liouvilleanSuggestedDtTry);
     logger_.stepBack(logStream,totalRate*dtDid,dtDid,ode_.getDtTry(),t_,logControl);
     return true; // Step-back required.
-- 
2.43.0


From 5e23afd6580c903cdb84ab59647da1401ecf687e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:26 +0000
Subject: [PATCH 14/22] fix: advancing a trajectory does not step backwards
 when the last step ends beyond the target because of rounding

---
 CPPQEDutils/Trajectory.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CPPQEDutils/Trajectory.h b/CPPQEDutils/Trajectory.h
index 3cfe2b0..3750f07 100644
--- a/CPPQEDutils/Trajectory.h
+++ b/CPPQEDutils/Trajectory.h
@@ -46,7 +46,8 @@ void advance(Trajectory& traj,
             std::ostream& logStream=std::clog)
 {
   double endTime=traj.getTime()+deltaT;
-  while (double dt=endTime-traj.getTime()) traj.step(dt,logStream);
+  // because of rounding, the last step may end beyond endTime, from where we do not step back (stochastic trajectories cannot)
+  for (double dt; (dt=endTime-traj.getTime())*deltaT>0; ) traj.step(dt,logStream);
 }
 
 
-- 
2.43.0


From a2d90a1145d7aa1f8aa9678232a5181fcee4b26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:39 +0000
Subject: [PATCH 15/22] fix: the key of a spin says that the second column is
 the variance of sz, which it is

---
 CPPQEDelements/frees/Spin.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDelements/frees/Spin.cc b/CPPQEDelements/frees/Spin.cc
index 7c48303..3ec627f 100644
--- a/CPPQEDelements/frees/Spin.cc
+++ b/CPPQEDelements/frees/Spin.cc
@@ -87,7 +87,7 @@ Pars::Pars(parameters::Table& p, const std::string& mod)
 
 SpinBase::SpinBase(size_t twoS, double theta, double phi, double omega, double gamma, size_t dim) 
   : Free(spin::decideDimension(twoS,dim),{RF{"omega",omega,1},RF{"gamma",gamma,1}}),
-    structure::ElementAveraged<1>("Spin",{"<sz>","<sz^2>","real(<s^+>)","imag(\")","|Psi(dim-1)|^2"}), twoS_(twoS), theta_(theta), phi_(phi), omega_(omega), gamma_(gamma), s_(twoS/2.)
+    structure::ElementAveraged<1>("Spin",{"<sz>","VAR(sz)","real(<s^+>)","imag(\")","|Psi(dim-1)|^2"}), twoS_(twoS), theta_(theta), phi_(phi), omega_(omega), gamma_(gamma), s_(twoS/2.)
 {
   getParsStream()<<"Spin "<<s_<<endl;
   getParsStream()<<"theta="<<theta_<<" phi="<<phi_<<endl;
-- 
2.43.0


From 3f1fa4cec955b2aa1e4e7ec7bfd7acbd03abb9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:35 +0000
Subject: [PATCH 16/22] fix: the GSL stepper takes back and retries a step
 whose error exceeds the tolerance

---
 CPPQEDutils/ODE_GSL.h | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/CPPQEDutils/ODE_GSL.h b/CPPQEDutils/ODE_GSL.h
index cad3086..045dc33 100644
--- a/CPPQEDutils/ODE_GSL.h
+++ b/CPPQEDutils/ODE_GSL.h
@@ -9,6 +9,8 @@
 #include <gsl/gsl_errno.h>
 #include <gsl/gsl_odeiv2.h>
 
+#include <algorithm>
+#include <cmath>
 #include <cstddef>
 
 namespace cppqedutils {
@@ -50,6 +52,7 @@ public:
       step_.reset(gsl_odeiv2_step_alloc(gsl_odeiv2_step_rkck,totalExtent), [] (auto* ptr) {if (ptr) gsl_odeiv2_step_free(ptr);});
       yerr_=std::make_shared<ValueVector>(totalExtent);
       dydt_out_=std::make_shared<ValueVector>(totalExtent);
+      yBefore_=std::make_shared<ValueVector>(totalExtent);
     }
 #ifndef NDEBUG
     else if (!IsStorageContiguous<StateType>::_(stateInOut)) {
@@ -66,6 +69,8 @@ public:
     
     gsl_odeiv2_system dydt{ControlledErrorStepperGSL::lowLevelSystemFunction,nullptr,totalExtent,&aux};
     
+    std::copy_n(Data<StateType>::_(stateInOut),totalExtent,yBefore_->begin());
+
     auto step_status = gsl_odeiv2_step_apply (step_.get(), time, dtTry, Data<StateType>::_(stateInOut), yerr_->data(), nullptr, dydt_out_->data(), &dydt);
     
     if (step_status == GSL_EFAULT || step_status == GSL_EBADFUNC) throw std::runtime_error("GSL bad step_status");
@@ -75,10 +80,13 @@ public:
       return bno::fail;
     }
     else {
-      time+=dtTry;
-      /* const auto hadjust_status = */
-      gsl_odeiv2_control_hadjust (control_.get(), step_.get(), Data<StateType>::_(stateInOut), yerr_->data(), dydt_out_->data(), &dtTry);
-      // if (hadjust_status == GSL_ODEIV_HADJ_DEC) throw std::runtime_error{"Unexpected change of dtTry in ControlledErrorStepperGSL::tryStep"};
+      const double dtTried=dtTry;
+      const auto hadjust_status = gsl_odeiv2_control_hadjust (control_.get(), step_.get(), Data<StateType>::_(stateInOut), yerr_->data(), dydt_out_->data(), &dtTry);
+      if (hadjust_status == GSL_ODEIV_HADJ_DEC && fabs(dtTry)<fabs(dtTried) && time+dtTry!=time) { // error too big: take back the step & retry with the decreased stepsize
+        std::copy_n(yBefore_->begin(),totalExtent,Data<StateType>::_(stateInOut));
+        return bno::fail;
+      }
+      time+=dtTried;
       return bno::success;
     }
   }
@@ -102,7 +110,7 @@ private:
   std::shared_ptr<gsl_odeiv2_control> control_;
   
   // Needs to be easily copyable, as Steppers are carried around by value
-  std::shared_ptr<ValueVector> yerr_, dydt_out_;
+  std::shared_ptr<ValueVector> yerr_, dydt_out_, yBefore_;
   
 };
 
-- 
2.43.0


From 05ecf9a92c965ac365f02cbc35b01297ee4b7cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:48 +0000
Subject: [PATCH 17/22] fix: a step is made in the direction asked for also
 after a tiny step backwards

---
 CPPQEDutils/ODE.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CPPQEDutils/ODE.h b/CPPQEDutils/ODE.h
index 7583935..7de0b59 100644
--- a/CPPQEDutils/ODE.h
+++ b/CPPQEDutils/ODE.h
@@ -12,6 +12,7 @@
 
 #include <boost/numeric/odeint.hpp>
 
+#include <cmath>
 #include <functional>
 #include <iostream>
 #include <optional>
@@ -238,7 +239,7 @@ void cppqedutils::ode_engine::Base<ControlledErrorStepper,Logger>::step(Time del
   
   Time nextDtTry=( fabs(deltaT)<fabs(dtTry_/nextDtTryCorrectionFactor) ? dtTry_ : 0. );
   
-  if (sign(deltaT)!=sign(dtTry_)) dtTry_=-dtDid_; // Stepping backward
+  if (sign(deltaT)!=sign(dtTry_)) dtTry_=std::copysign(dtDid_ ? dtDid_ : dtTry_,deltaT); // Stepping backward
   
   if (fabs(dtTry_)>fabs(deltaT)) dtTry_=deltaT;
   
-- 
2.43.0


From f168cfbe43b452d4340db3a01af1dc8d087d62c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:15 +0000
Subject: [PATCH 18/22] fix: the Kerr term given as omegaKerrAlter is not lost
 when the mode is propagated exactly

---
 CPPQEDelements/frees/Mode.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CPPQEDelements/frees/Mode.tcc b/CPPQEDelements/frees/Mode.tcc
index 981933d..ed18aae 100644
--- a/CPPQEDelements/frees/Mode.tcc
+++ b/CPPQEDelements/frees/Mode.tcc
@@ -95,7 +95,7 @@ void AveragedMonitorCutoff<Base>::process_v(Averages& averages) const
 
 template<typename AveragingType> template<typename... AveragingConstructorParameters>
 Mode<AveragingType>::Mode(const mode::Pars& p, AveragingConstructorParameters&&... a)
-  : mode::Exact(dcomp(0,-p.delta),p.omegaKerr,p.cutoff),
+  : mode::Exact(dcomp(0,-p.delta),p.omegaKerr+p.omegaKerrAlter,p.cutoff),
     ModeBase(p.cutoff,TUPLE_delta(1)),
     AveragingType(std::forward<AveragingConstructorParameters>(a)...)
 {}
@@ -134,7 +134,7 @@ PumpedModeSch<AveragingType>::PumpedModeSch(const mode::ParsPumped& p, Averaging
 template<bool TEMPERATURE, typename AveragingType> template<typename... AveragingConstructorParameters>
 LossyMode<TEMPERATURE,AveragingType>::LossyMode(const mode::ParsLossy& p, AveragingConstructorParameters&&... a)
   : mode::Liouvillean<TEMPERATURE>(p.kappa,p.nTh),
-    mode::Exact(dcomp(mode::finiteTemperatureHamiltonianDecay<TEMPERATURE>(p),-p.delta),p.omegaKerr,p.cutoff),
+    mode::Exact(dcomp(mode::finiteTemperatureHamiltonianDecay<TEMPERATURE>(p),-p.delta),p.omegaKerr+p.omegaKerrAlter,p.cutoff),
     ModeBase(p.cutoff,TUPLE_kappadelta(1)),
     AveragingType(std::forward<AveragingConstructorParameters>(a)...)
 {
-- 
2.43.0


From e5f155fca9bb68828173101c4eeceb09ea3ef299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:15 +0000
Subject: [PATCH 19/22] fix: a thermal mode with alternative jumping decays
 with kappa*(2*nTh+1) between jumps

---
 CPPQEDelements/frees/Mode.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDelements/frees/Mode.tcc b/CPPQEDelements/frees/Mode.tcc
index ed18aae..c7e8418 100644
--- a/CPPQEDelements/frees/Mode.tcc
+++ b/CPPQEDelements/frees/Mode.tcc
@@ -203,7 +203,7 @@ PumpedLossyModeSch<TEMPERATURE,AveragingType>::PumpedLossyModeSch(const mode::Pa
 template<bool TEMPERATURE, typename AveragingType> template<typename... AveragingConstructorParameters>
 PumpedLossyModeAlternative<TEMPERATURE,AveragingType>::PumpedLossyModeAlternative(const mode::ParsPumpedLossy& p, AveragingConstructorParameters&&... a)
   : mode::Liouvillean<TEMPERATURE,true>(p.kappa,p.nTh),
-    mode::Hamiltonian<true>(0,dcomp(p.kappa,-p.delta),p.eta,p.omegaKerr,p.omegaKerrAlter,p.cutoff),
+    mode::Hamiltonian<true>(0,dcomp(mode::finiteTemperatureHamiltonianDecay<TEMPERATURE>(p),-p.delta),p.eta,p.omegaKerr,p.omegaKerrAlter,p.cutoff),
     ModeBase(p.cutoff,{TUPLE_kappadelta(1),TUPLE_eta}),
     AveragingType(std::forward<AveragingConstructorParameters>(a)...)
 {
-- 
2.43.0


From 315e2e6e1284b1559e1c35499aefa9958edd876c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:56 +0000
Subject: [PATCH 20/22] fix: the evolved state is accessible through the
 initial state also when the run was continued from a saved state

---
 CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h | 4 ++--
 CPPQEDcore/quantumtrajectory/Master.h          | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h b/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
index 5398039..da97bd9 100644
--- a/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
+++ b/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
@@ -129,7 +129,7 @@ public:
   /// Forwards to structure::Averaged::stream
   auto stream(std::ostream& os, int precision) const {return structure::QuantumSystemWrapper<RANK>::stream(getTime(),psi_,os,precision);}
   
-  auto& readFromArrayOnlyArchive(cppqedutils::iarchive& iar) {psi_.getArray().reference(readStateArray(iar,psi_.getArray())); return iar;}
+  auto& readFromArrayOnlyArchive(cppqedutils::iarchive& iar) {psi_.getArray()=readStateArray(iar,psi_.getArray()); return iar;}
 
   /** structure of MCWF_Trajectory archives:
   * metaData – array – time – ( odeStepper – odeLogger – dtDid – dtTry ) – randomEngine – logger
@@ -139,7 +139,7 @@ public:
   {
     StateVectorLow temp(readStateArray(iar,psi_.getArray()));
     ode_.stateIO(iar & t_) & re_.engine & logger_;
-    psi_.getArray().reference(temp);
+    psi_.getArray()=temp; // in place, so that the evolved state remains accessible through the initial state
     if (this->getEx()) t0_=t_; // A very important step!
     return iar;
   }
diff --git a/CPPQEDcore/quantumtrajectory/Master.h b/CPPQEDcore/quantumtrajectory/Master.h
index 21a2fae..6920a8b 100644
--- a/CPPQEDcore/quantumtrajectory/Master.h
+++ b/CPPQEDcore/quantumtrajectory/Master.h
@@ -84,7 +84,7 @@ public:
   
   auto stream(std::ostream& os, int precision) const {return dos_(t_,rho_,os,precision);}
   
-  auto& readFromArrayOnlyArchive(cppqedutils::iarchive& iar) {rho_.getArray().reference(readStateArray(iar,rho_.getArray())); return iar;}
+  auto& readFromArrayOnlyArchive(cppqedutils::iarchive& iar) {rho_.getArray()=readStateArray(iar,rho_.getArray()); return iar;}
 
   /** structure of Master archives:
   * metaData – array – time – ( odeStepper – odeLogger – dtDid – dtTry )
@@ -94,7 +94,7 @@ public:
   {
     DensityOperatorLow temp(readStateArray(iar,rho_.getArray()));
     ode_.stateIO(iar & t_);
-    rho_.getArray().reference(temp);
+    rho_.getArray()=temp; // in place, so that the evolved state remains accessible through the initial state
     if (this->getEx()) t0_=t_; // A very important step!
     return iar;
   }
-- 
2.43.0


From a7600fd05939a9640d99f6fe22337af9580b1d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:20 +0000
Subject: [PATCH 21/22] fix: steps in the direction opposite to the last one
 are adapted, instead of all having the length of the last one

---
 CPPQEDutils/ODE.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CPPQEDutils/ODE.h b/CPPQEDutils/ODE.h
index 7de0b59..4d36a02 100644
--- a/CPPQEDutils/ODE.h
+++ b/CPPQEDutils/ODE.h
@@ -237,10 +237,10 @@ void cppqedutils::ode_engine::Base<ControlledErrorStepper,Logger>::step(Time del
 {  
   const Time timeBefore=time;
   
-  Time nextDtTry=( fabs(deltaT)<fabs(dtTry_/nextDtTryCorrectionFactor) ? dtTry_ : 0. );
-  
   if (sign(deltaT)!=sign(dtTry_)) dtTry_=std::copysign(dtDid_ ? dtDid_ : dtTry_,deltaT); // Stepping backward
   
+  Time nextDtTry=( fabs(deltaT)<fabs(dtTry_/nextDtTryCorrectionFactor) ? dtTry_ : 0. );
+  
   if (fabs(dtTry_)>fabs(deltaT)) dtTry_=deltaT;
   
   size_t nFailedSteps=0;
-- 
2.43.0


From f18aacfb21f86a15ef6bafeb3e687729c0968cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:16 +0000
Subject: [PATCH 22/22] fix: the negativity does not come from uninitialised
 memory when the general eigenvalue solver fails to converge on the Hermitian
 partial transpose

---
 CPPQEDcore/quantumdata/EntanglementMeasures.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CPPQEDcore/quantumdata/EntanglementMeasures.h b/CPPQEDcore/quantumdata/EntanglementMeasures.h
index dcf96ed..ce4254f 100644
--- a/CPPQEDcore/quantumdata/EntanglementMeasures.h
+++ b/CPPQEDcore/quantumdata/EntanglementMeasures.h
@@ -67,11 +67,11 @@ double negPT(const DensityOperator<RANK>& rho, V)
 
   DensityOperatorLow<RANK> rhoDeepPT(rhoShallowPT.shape()); rhoDeepPT=rhoShallowPT;
   
-  auto ev=Eigen::ComplexEigenSolver<EigenCMatrix>{
+  auto ev=Eigen::SelfAdjointEigenSolver<EigenCMatrix>{ // the partial transpose is Hermitian, and the general solver can fail to converge
     Eigen::Map<EigenCMatrix>{rhoDeepPT.data(),long(rho.getTotalDimension()),long(rho.getTotalDimension())},
-    false}.eigenvalues();
+    Eigen::EigenvaluesOnly}.eigenvalues();
   
-  return (std::accumulate(ev.begin(),ev.end(),0.,[] (double v, dcomp e) {return v + std::abs(e) ;}) - 1.)/2. ;
+  return (std::accumulate(ev.begin(),ev.end(),0.,[] (double v, double e) {return v + std::abs(e) ;}) - 1.)/2. ;
   
 }
 
-- 
2.43.0

