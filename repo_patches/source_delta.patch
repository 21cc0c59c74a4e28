From d851f9fa7f0dc1ac734028dbfaab91fbb52e0339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:03 +0000
Subject: [PATCH 01/27] fix: do not replace the event loop barrier while its
 last thread uses it

start() destroyed the previous barrier before the previous event loop
thread had left arrive_and_wait() on it: stop() followed by execute() was
a use after free. Join the previous thread first.
---
 PTN_Engine/EventLoop.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/PTN_Engine/EventLoop.cpp b/PTN_Engine/EventLoop.cpp
index f1b7028..23eb682 100755
--- a/PTN_Engine/EventLoop.cpp
+++ b/PTN_Engine/EventLoop.cpp
@@ -64,6 +64,11 @@ void EventLoop::start(const bool log, ostream &o)
 	}
 	else
 	{
+		// The previous event loop thread may still be using the barrier, wait for it to end.
+		if (m_eventLoopThread.joinable())
+		{
+			m_eventLoopThread.join();
+		}
 		m_barrier = make_unique<barrier<>>(2);
 		m_eventLoopThreadRunning = true;
 		m_eventLoopThread = jthread(bind_front(&EventLoop::run, this), log, ref(o));
-- 
2.43.0


From b9bc47915580d2e71d1dc83b9ffe7617cfc54d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:03 +0000
Subject: [PATCH 02/27] fix: an event loop whose thread could not be created is
 not running

When the creation of the event loop thread failed, execute() threw but left
the engine marked as running: every later execute() was refused, and stop()
returned at once without clearing the mark.
---
 PTN_Engine/EventLoop.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/PTN_Engine/EventLoop.cpp b/PTN_Engine/EventLoop.cpp
index 23eb682..47befe5 100755
--- a/PTN_Engine/EventLoop.cpp
+++ b/PTN_Engine/EventLoop.cpp
@@ -71,7 +71,15 @@ void EventLoop::start(const bool log, ostream &o)
 		}
 		m_barrier = make_unique<barrier<>>(2);
 		m_eventLoopThreadRunning = true;
-		m_eventLoopThread = jthread(bind_front(&EventLoop::run, this), log, ref(o));
+		try
+		{
+			m_eventLoopThread = jthread(bind_front(&EventLoop::run, this), log, ref(o));
+		}
+		catch (...)
+		{
+			m_eventLoopThreadRunning = false;
+			throw;
+		}
 	}
 }
 
-- 
2.43.0


From 41f861b6912ef12a1f5ddb4ce1e7973e2a54567c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:03 +0000
Subject: [PATCH 03/27] fix: stop() wakes the event loop up instead of waiting
 for the watchdog

A stop request made while the event loop was idle was only noticed when the
watchdog period ran out, so stop() and the destructor blocked for up to a
whole period, whatever its length.
---
 PTN_Engine/EventLoop.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PTN_Engine/EventLoop.cpp b/PTN_Engine/EventLoop.cpp
index 47befe5..5a378f1 100755
--- a/PTN_Engine/EventLoop.cpp
+++ b/PTN_Engine/EventLoop.cpp
@@ -47,6 +47,7 @@ void EventLoop::stop() noexcept
 	if (m_eventLoopThread.get_stop_token().stop_possible())
 	{
 		m_eventLoopThread.request_stop();
+		notifyNewEvent();
 		m_barrier->arrive_and_wait();
 	}
 }
@@ -111,7 +112,8 @@ void EventLoop::run(stop_token stopToken, const bool log, ostream &o)
 			shared_lock lock(m_sleepDurationMutex);
 			unique_lock eventNotifierGuard(m_eventNotifierMutex);
 			m_eventNotifier.wait_for(eventNotifierGuard, m_sleepDuration,
-									 [this] { return m_ptnEngine.getNewInputReceived(); });
+									 [this, &stopToken]
+									 { return stopToken.stop_requested() || m_ptnEngine.getNewInputReceived(); });
 		}
 	}
 	m_eventLoopThreadRunning = false;
-- 
2.43.0


From 6579ac093e18e53f331ad6a79f4739d8aff48825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:03 +0000
Subject: [PATCH 04/27] fix: do not hold the sleep duration mutex while the
 event loop sleeps

setEventLoopSleepDuration() had to wait for the sleeping event loop to wake
up, while holding the engine's lock, so that nothing could wake it before
the watchdog period was over.
---
 PTN_Engine/EventLoop.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PTN_Engine/EventLoop.cpp b/PTN_Engine/EventLoop.cpp
index 5a378f1..9fd76f6 100755
--- a/PTN_Engine/EventLoop.cpp
+++ b/PTN_Engine/EventLoop.cpp
@@ -109,9 +109,9 @@ void EventLoop::run(stop_token stopToken, const bool log, ostream &o)
 	{
 		if (!m_ptnEngine.executeInt(log, o))
 		{
-			shared_lock lock(m_sleepDurationMutex);
+			const auto sleepDuration = getSleepDuration();
 			unique_lock eventNotifierGuard(m_eventNotifierMutex);
-			m_eventNotifier.wait_for(eventNotifierGuard, m_sleepDuration,
+			m_eventNotifier.wait_for(eventNotifierGuard, sleepDuration,
 									 [this, &stopToken]
 									 { return stopToken.stop_requested() || m_ptnEngine.getNewInputReceived(); });
 		}
-- 
2.43.0


From 006fb7088574b79fa92a9c0611b46eeb6b3a7213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:57 +0000
Subject: [PATCH 05/27] fix: a transition must not wait for the block it has
 set itself

A transition requiring no actions in execution blocks the on enter actions
of its activation places while it fires. When one of them is a destination
place too, entering it waited forever for that block to be lifted, and the
event loop hung.
---
 PTN_Engine/Transition.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PTN_Engine/Transition.cpp b/PTN_Engine/Transition.cpp
index 4ac0a5f..84d88e4 100755
--- a/PTN_Engine/Transition.cpp
+++ b/PTN_Engine/Transition.cpp
@@ -366,6 +366,9 @@ bool Transition::noActionsInExecution() const
 void Transition::performTransit() const
 {
 	exitActivationPlaces();
+	// An activation place can also be a destination place: entering it must not
+	// wait for the block that this very transition has set.
+	blockStartingOnEnterActions(false);
 	enterDestinationPlaces();
 }
 
-- 
2.43.0


From d54444b65c0e1372c2c77abaa6211b20c2d0eb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:57 +0000
Subject: [PATCH 06/27] fix: do not hold a place's mutex while its on enter
 actions are blocked

A token entering a place whose on enter actions are blocked waited for the
block to be lifted while holding the mutex of the place. The transition that
had set the block needs that mutex to read and take the tokens of the place,
so that both waited for each other forever.
---
 PTN_Engine/Place.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/PTN_Engine/Place.cpp b/PTN_Engine/Place.cpp
index 27a6f7b..0a1ef24 100644
--- a/PTN_Engine/Place.cpp
+++ b/PTN_Engine/Place.cpp
@@ -61,17 +61,20 @@ string Place::getName() const
 void Place::enterPlace(const size_t tokens)
 {
 	unique_lock guard(m_mutex);
-	increaseNumberOfTokens(tokens);
-	if (m_onEnterAction == nullptr)
-	{
-		return;
-	}
-	while (m_blockStartingOnEnterActions)
+	while (m_onEnterAction != nullptr && m_blockStartingOnEnterActions)
 	{
 		// TO DO make this wait period configurable
 		// add a max wait time after which an exception
 		// is thrown.
+		// The transition that has set the block needs this mutex to finish.
+		guard.unlock();
 		this_thread::sleep_for(100ms);
+		guard.lock();
+	}
+	increaseNumberOfTokens(tokens);
+	if (m_onEnterAction == nullptr)
+	{
+		return;
 	}
 	lockWeakPtr(m_actionsExecutor)->executeAction(m_onEnterAction, m_onEnterActionsInExecution);
 }
-- 
2.43.0


From ba272b0f3fd9e0187913c0b568bde60ce66925dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:57 +0000
Subject: [PATCH 07/27] fix: read the properties of a place under its mutex

Place::placeProperties() read the number of tokens without the mutex that
protects it, racing with the event loop thread.
---
 PTN_Engine/Place.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PTN_Engine/Place.cpp b/PTN_Engine/Place.cpp
index 0a1ef24..507da81 100644
--- a/PTN_Engine/Place.cpp
+++ b/PTN_Engine/Place.cpp
@@ -163,6 +163,7 @@ void Place::blockStartingOnEnterActions(const bool value)
 
 PlaceProperties Place::placeProperties() const
 {
+	shared_lock guard(m_mutex);
 	PlaceProperties placeProperties;
 	placeProperties.name = m_name;
 	placeProperties.onEnterActionFunctionName = m_onEnterActionName;
-- 
2.43.0


From 066e296ac6cc912ffcb68c6b4add620c07e92459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:57 +0000
Subject: [PATCH 08/27] fix: pending actions must not outlive the place they
 refer to

The JOB_QUEUE and DETACHED executors kept references to the action and the
counter of a place in jobs executed later. Clearing the net or destroying
the engine meanwhile was a use after free. The jobs now own a copy of the
action, which keeps the place alive.
---
 PTN_Engine/Executor/DetachedExecutor.cpp |  2 +-
 PTN_Engine/Executor/JobQueueExecutor.cpp |  2 +-
 PTN_Engine/Place.cpp                     | 11 +++++++++--
 PTN_Engine/Place.h                       | 10 +++++++++-
 4 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/PTN_Engine/Executor/DetachedExecutor.cpp b/PTN_Engine/Executor/DetachedExecutor.cpp
index c7ff828..42afc35 100644
--- a/PTN_Engine/Executor/DetachedExecutor.cpp
+++ b/PTN_Engine/Executor/DetachedExecutor.cpp
@@ -28,7 +28,7 @@ using namespace std;
 void DetachedExecutor::executeAction(const ActionFunction &action, atomic<size_t> &actionsInExecution)
 {
 	++actionsInExecution;
-	auto job = [&actionsInExecution, &action]()
+	auto job = [&actionsInExecution, action]()
 	{
 		action();
 		--actionsInExecution;
diff --git a/PTN_Engine/Executor/JobQueueExecutor.cpp b/PTN_Engine/Executor/JobQueueExecutor.cpp
index 51ddaec..a199fa3 100644
--- a/PTN_Engine/Executor/JobQueueExecutor.cpp
+++ b/PTN_Engine/Executor/JobQueueExecutor.cpp
@@ -27,7 +27,7 @@ using namespace std;
 void JobQueueExecutor::executeAction(const ActionFunction &action, atomic<size_t> &actionsInExecution)
 {
 	++actionsInExecution;
-	auto f = [&actionsInExecution, &action]()
+	auto f = [&actionsInExecution, action]()
 	{
 		action();
 		--actionsInExecution;
diff --git a/PTN_Engine/Place.cpp b/PTN_Engine/Place.cpp
index 507da81..98fd2b9 100644
--- a/PTN_Engine/Place.cpp
+++ b/PTN_Engine/Place.cpp
@@ -76,7 +76,7 @@ void Place::enterPlace(const size_t tokens)
 	{
 		return;
 	}
-	lockWeakPtr(m_actionsExecutor)->executeAction(m_onEnterAction, m_onEnterActionsInExecution);
+	executeAction(m_onEnterAction, m_onEnterActionsInExecution);
 }
 
 void Place::exitPlace(const size_t tokens)
@@ -87,7 +87,14 @@ void Place::exitPlace(const size_t tokens)
 	{
 		return;
 	}
-	lockWeakPtr(m_actionsExecutor)->executeAction(m_onExitAction, m_onExitActionsInExecution);
+	executeAction(m_onExitAction, m_onExitActionsInExecution);
+}
+
+void Place::executeAction(const ActionFunction &action, atomic<size_t> &actionsInExecution)
+{
+	// The action may be executed after the place has been removed from the net.
+	auto keepAlive = [place = weak_from_this().lock(), &action]() { action(); };
+	lockWeakPtr(m_actionsExecutor)->executeAction(keepAlive, actionsInExecution);
 }
 
 void Place::increaseNumberOfTokens(const size_t tokens)
diff --git a/PTN_Engine/Place.h b/PTN_Engine/Place.h
index b07186a..23b8fa5 100755
--- a/PTN_Engine/Place.h
+++ b/PTN_Engine/Place.h
@@ -21,6 +21,7 @@
 #include "PTN_Engine/PTN_Engine.h"
 #include <atomic>
 #include <functional>
+#include <memory>
 #include <shared_mutex>
 
 namespace ptne
@@ -33,7 +34,7 @@ class IActionsExecutor;
 //!
 //! \brief Implements a place of a Petri net.
 //!
-class Place final
+class Place final : public std::enable_shared_from_this<Place>
 {
 public:
 	using ActionFunction = std::function<void(void)>;
@@ -119,6 +120,13 @@ public:
 	void setNumberOfTokens(const size_t tokens);
 
 private:
+	//!
+	//! \brief Hand an action over to the executor, keeping the place alive until it has been executed.
+	//! \param action - action to be executed.
+	//! \param actionsInExecution - counter of the actions being executed.
+	//!
+	void executeAction(const ActionFunction &action, std::atomic<size_t> &actionsInExecution);
+
 	//!
 	//! Decrease number of tokens in the place.
 	//! \param tokens Number of tokens to be removed. Must be at least 1.
-- 
2.43.0


From 3410b6de2f351f09499c9cc5d358fde54e133aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:57 +0000
Subject: [PATCH 09/27] fix: an exception of a user function must not leave
 actions blocked

When an action threw, it counted as being in execution ever after. When an
additional condition threw, the on enter actions of the activation places
stayed blocked, and the next token to enter one of them waited forever.
---
 PTN_Engine/Executor/SingleThreadExecutor.cpp | 10 +++++++++-
 PTN_Engine/Transition.cpp                    | 18 +++++++++++++-----
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/PTN_Engine/Executor/SingleThreadExecutor.cpp b/PTN_Engine/Executor/SingleThreadExecutor.cpp
index 09e3d7d..3a9053c 100644
--- a/PTN_Engine/Executor/SingleThreadExecutor.cpp
+++ b/PTN_Engine/Executor/SingleThreadExecutor.cpp
@@ -27,7 +27,15 @@ using namespace std;
 void SingleThreadExecutor::executeAction(const ActionFunction &action, atomic<size_t> &actionsInExecution)
 {
 	++actionsInExecution;
-	action();
+	try
+	{
+		action();
+	}
+	catch (...)
+	{
+		--actionsInExecution;
+		throw;
+	}
 	--actionsInExecution;
 }
 
diff --git a/PTN_Engine/Transition.cpp b/PTN_Engine/Transition.cpp
index 84d88e4..b419e40 100755
--- a/PTN_Engine/Transition.cpp
+++ b/PTN_Engine/Transition.cpp
@@ -84,14 +84,22 @@ bool Transition::execute()
 
 	blockStartingOnEnterActions(true);
 
-	if (!isActive())
+	try
 	{
-		result = false;
+		if (!isActive())
+		{
+			result = false;
+		}
+		else
+		{
+			performTransit();
+			result = true;
+		}
 	}
-	else
+	catch (...)
 	{
-		performTransit();
-		result = true;
+		blockStartingOnEnterActions(false);
+		throw;
 	}
 
 	blockStartingOnEnterActions(false);
-- 
2.43.0


From 10157615be5c61cebad377f8ff38ff3b9abed662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:57 +0000
Subject: [PATCH 10/27] fix: an action whose thread could not be created is not
 in execution

When the thread of a detached action could not be created, the action
counted as being in execution ever after.
---
 PTN_Engine/Executor/DetachedExecutor.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/PTN_Engine/Executor/DetachedExecutor.cpp b/PTN_Engine/Executor/DetachedExecutor.cpp
index 42afc35..0ed098b 100644
--- a/PTN_Engine/Executor/DetachedExecutor.cpp
+++ b/PTN_Engine/Executor/DetachedExecutor.cpp
@@ -33,8 +33,16 @@ void DetachedExecutor::executeAction(const ActionFunction &action, atomic<size_t
 		action();
 		--actionsInExecution;
 	};
-	auto t = thread(job);
-	t.detach();
+	try
+	{
+		auto t = thread(job);
+		t.detach();
+	}
+	catch (...)
+	{
+		--actionsInExecution;
+		throw;
+	}
 }
 
 } // namespace ptne
-- 
2.43.0


From 33b595a46c780e77c236f55b352a85ccc8f1bd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:57 +0000
Subject: [PATCH 11/27] fix: adding or removing a bidirectional arc is all or
 nothing

When only the activation half could be added or removed, the call threw but
kept the change to that half.
---
 PTN_Engine/Transition.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/PTN_Engine/Transition.cpp b/PTN_Engine/Transition.cpp
index b419e40..d27760b 100755
--- a/PTN_Engine/Transition.cpp
+++ b/PTN_Engine/Transition.cpp
@@ -226,7 +226,7 @@ void Transition::addArc(const shared_ptr<Place> &place, const ArcProperties::Typ
 {
 	unique_lock guard(m_mutex);
 
-	auto addArcTo = [&place, weight](auto &placesContainer)
+	auto checkNotIn = [&place](const auto &placesContainer)
 	{
 		auto sameNameAs = [&place](const auto &arc)
 		{ return lockWeakPtr(arc.place)->getName() == place->getName(); };
@@ -235,6 +235,11 @@ void Transition::addArc(const shared_ptr<Place> &place, const ArcProperties::Typ
 		{
 			throw PTN_Exception("Arc already exists");
 		}
+	};
+
+	auto addArcTo = [&place, weight, &checkNotIn](auto &placesContainer)
+	{
+		checkNotIn(placesContainer);
 		placesContainer.push_back({ place, weight });
 	};
 
@@ -252,6 +257,7 @@ void Transition::addArc(const shared_ptr<Place> &place, const ArcProperties::Typ
 	}
 	case BIDIRECTIONAL:
 	{
+		checkNotIn(m_destinationArcs);
 		addArcTo(m_activationArcs);
 		addArcTo(m_destinationArcs);
 		break;
@@ -273,22 +279,21 @@ void Transition::removeArc(const shared_ptr<Place> &place, const ArcProperties::
 {
 	unique_lock guard(m_mutex);
 
-	auto removePlaceFrom = [&place](auto &placesContainer)
+	auto findIn = [&place](auto &placesContainer)
 	{
 		auto sameNameAs = [&place](const auto &arc)
 		{ return lockWeakPtr(arc.place)->getName() == place->getName(); };
 
 		auto it = ranges::find_if(placesContainer, sameNameAs);
-		if (it != placesContainer.cend())
-		{
-			placesContainer.erase(it);
-		}
-		else
+		if (it == placesContainer.cend())
 		{
 			throw PTN_Exception("Cannot remove palce " + place->getName());
 		}
+		return it;
 	};
 
+	auto removePlaceFrom = [&findIn](auto &placesContainer) { placesContainer.erase(findIn(placesContainer)); };
+
 	using enum ArcProperties::Type;
 	switch (type)
 	{
@@ -303,6 +308,7 @@ void Transition::removeArc(const shared_ptr<Place> &place, const ArcProperties::
 	}
 	case BIDIRECTIONAL:
 	{
+		findIn(m_destinationArcs);
 		removePlaceFrom(m_activationArcs);
 		removePlaceFrom(m_destinationArcs);
 		break;
-- 
2.43.0


From c5bb4e7e6ed1ebfec43554d0a2f42c0d95c5e9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:57 +0000
Subject: [PATCH 12/27] fix: report that the exported file could not be saved

The result of saving the file was ignored: an export to a full disk, or to a
directory that does not exist, looked successful.
---
 PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp b/PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp
index bc4127d..cddb81b 100644
--- a/PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp
+++ b/PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp
@@ -18,6 +18,7 @@
 
 #include "XML/XML_FileExporter.h"
 #include "PTN_Engine/PTN_Engine.h"
+#include "PTN_Engine/PTN_Exception.h"
 #include <pugixml.hpp>
 #include <vector>
 
@@ -100,7 +101,10 @@ void XML_FileExporter::exportTransition(const TransitionProperties &transitionPr
 
 void XML_FileExporter::saveFile() const
 {
-	m_document.save_file(m_filePath.c_str());
+	if (!m_document.save_file(m_filePath.c_str()))
+	{
+		throw PTN_Exception("Could not save the file " + m_filePath);
+	}
 }
 
 } // namespace ptne
-- 
2.43.0


From e579047abb4f44e93140cb0d873b576ad8a7668e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:57 +0000
Subject: [PATCH 13/27] fix: an exporter used again starts with an empty
 document

The second export of an exporter object appended another root to the
document of the first one: the file then held the first net.
---
 PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp b/PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp
index cddb81b..7010a85 100644
--- a/PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp
+++ b/PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp
@@ -32,6 +32,7 @@ XML_FileExporter::~XML_FileExporter() = default;
 void XML_FileExporter::_export(const PTN_Engine &ptnEngine, const string &filePath)
 {
 	m_filePath = filePath;
+	m_document.reset();
 	m_rootNode = m_document.append_child("PTN-Engine");
 	m_rootNode.append_attribute("version").set_value("3.0");
 	m_rootNode.append_attribute("format").set_value("1");
-- 
2.43.0


From cdd6feaeb1804f6c82c3b4af8b3a7b1073566567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:57 +0000
Subject: [PATCH 14/27] fix: import numbers of tokens above the range of long

The exporter writes the full range of size_t, the importer clamped anything
above LONG_MAX.
---
 PTN_Engine/ImportExport/XML/src/XML/XML_FileImporter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/PTN_Engine/ImportExport/XML/src/XML/XML_FileImporter.cpp b/PTN_Engine/ImportExport/XML/src/XML/XML_FileImporter.cpp
index 4061133..8f2f4cc 100644
--- a/PTN_Engine/ImportExport/XML/src/XML/XML_FileImporter.cpp
+++ b/PTN_Engine/ImportExport/XML/src/XML/XML_FileImporter.cpp
@@ -21,6 +21,7 @@
 #include "PTN_Engine/PTN_Exception.h"
 #include <algorithm>
 #include <charconv>
+#include <cstdlib>
 #include <iterator>
 
 using namespace pugi;
@@ -54,7 +55,7 @@ collectArcAttributes(const xml_node &transition, const string &attribute, const
 		const string weightStr(activationCondition.attribute("weight").value());
 		if (!string(activationCondition.attribute("weight").value()).empty())
 		{
-			weight = static_cast<size_t>(atol(weightStr.c_str()));
+			weight = strtoull(weightStr.c_str(), nullptr, 10);
 		}
 
 		arcsProperties.emplace_back(weight, activationCondition.attribute("name").value(), activationConditionName,
@@ -138,7 +139,7 @@ vector<PlaceProperties> XML_FileImporter::importPlaces() const
 		size_t numberOfTokens = 0;
 		if (const string numberOfTokensStr = getAttributeValue(place, "tokens"); !numberOfTokensStr.empty())
 		{
-			numberOfTokens = static_cast<size_t>(atol(numberOfTokensStr.c_str()));
+			numberOfTokens = strtoull(numberOfTokensStr.c_str(), nullptr, 10);
 		}
 
 		placeProperties.name = getAttributeValue(place, "name");
-- 
2.43.0


From 804d0dd03c535e85563f9cb2176f92c0d212564a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:06 +0000
Subject: [PATCH 15/27] fix: changing the actions thread option must not drop
 pending actions

Replacing the job queue executor discarded the actions still in its queue:
they were never executed but counted as being in execution ever after. It
also waited for the running action while holding the engine's lock, hanging
when that action called the engine. Keep the executor.
---
 PTN_Engine/PTN_EngineImp.cpp | 9 ++++++++-
 PTN_Engine/PTN_EngineImp.h   | 4 ++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/PTN_Engine/PTN_EngineImp.cpp b/PTN_Engine/PTN_EngineImp.cpp
index f4429b1..fd8a521 100755
--- a/PTN_Engine/PTN_EngineImp.cpp
+++ b/PTN_Engine/PTN_EngineImp.cpp
@@ -130,7 +130,14 @@ void PTN_EngineImp::setActionsThreadOption(const PTN_Engine::ACTIONS_THREAD_OPTI
 		return;
 	}
 
-	m_actionsExecutor = ActionsExecutorFactory::createExecutor(actionsThreadOption);
+	auto executor = m_unusedExecutors[actionsThreadOption];
+	if (executor == nullptr)
+	{
+		executor = ActionsExecutorFactory::createExecutor(actionsThreadOption);
+	}
+	// There may be actions pending in the current executor.
+	m_unusedExecutors[m_actionsThreadOption] = m_actionsExecutor;
+	m_actionsExecutor = executor;
 	m_actionsThreadOption = actionsThreadOption;
 
 	m_places.setActionsExecutor(m_actionsExecutor);
diff --git a/PTN_Engine/PTN_EngineImp.h b/PTN_Engine/PTN_EngineImp.h
index 143a4b9..bab25ba 100755
--- a/PTN_Engine/PTN_EngineImp.h
+++ b/PTN_Engine/PTN_EngineImp.h
@@ -28,6 +28,7 @@
 #include "PTN_Engine/PlacesManager.h"
 #include "PTN_Engine/TransitionsManager.h"
 #include <atomic>
+#include <map>
 #include <shared_mutex>
 
 namespace ptne
@@ -196,6 +197,9 @@ private:
 	//! Executes the actions associated to each place, when tokens enter or exit them.z
 	std::shared_ptr<IActionsExecutor> m_actionsExecutor;
 
+	//! Executors used before the actions thread option was changed. They finish their pending actions.
+	std::map<PTN_Engine::ACTIONS_THREAD_OPTION, std::shared_ptr<IActionsExecutor>> m_unusedExecutors;
+
 	//! Determines how the actions will be executed.
 	PTN_Engine::ACTIONS_THREAD_OPTION m_actionsThreadOption;
 
-- 
2.43.0


From 3ffd8ffb2786fdf6442563b683b3cc1801394b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:10 +0000
Subject: [PATCH 16/27] fix: refuse to add an arc of weight zero

---
 PTN_Engine/Transition.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/PTN_Engine/Transition.cpp b/PTN_Engine/Transition.cpp
index d27760b..1d668de 100755
--- a/PTN_Engine/Transition.cpp
+++ b/PTN_Engine/Transition.cpp
@@ -224,6 +224,11 @@ TransitionProperties Transition::getTransitionProperties() const
 
 void Transition::addArc(const shared_ptr<Place> &place, const ArcProperties::Type type, const size_t weight)
 {
+	if (weight == 0)
+	{
+		throw ZeroValueWeightException();
+	}
+
 	unique_lock guard(m_mutex);
 
 	auto checkNotIn = [&place](const auto &placesContainer)
-- 
2.43.0


From 6927d2641179fd3a0c0366c02d3cbfe557f79e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:42 +0000
Subject: [PATCH 17/27] fix: a firing that would overflow a destination place
 moves no token

---
 PTN_Engine/Transition.cpp | 22 ++++++++++++++++++++++
 PTN_Engine/Transition.h   |  4 ++++
 2 files changed, 26 insertions(+)

diff --git a/PTN_Engine/Transition.cpp b/PTN_Engine/Transition.cpp
index 1d668de..f3c866d 100755
--- a/PTN_Engine/Transition.cpp
+++ b/PTN_Engine/Transition.cpp
@@ -25,6 +25,7 @@
 #include "PTN_Engine/Utilities/LockWeakPtr.h"
 #include <algorithm>
 #include <array>
+#include <climits>
 #include <mutex>
 #include <vector>
 
@@ -384,6 +385,7 @@ bool Transition::noActionsInExecution() const
 
 void Transition::performTransit() const
 {
+	checkDestinationPlaces();
 	exitActivationPlaces();
 	// An activation place can also be a destination place: entering it must not
 	// wait for the block that this very transition has set.
@@ -391,6 +393,26 @@ void Transition::performTransit() const
 	enterDestinationPlaces();
 }
 
+void Transition::checkDestinationPlaces() const
+{
+	for (const Arc &destinationArc : m_destinationArcs)
+	{
+		const SharedPtrPlace spPlace = lockWeakPtr(destinationArc.place);
+		size_t tokens = spPlace->getNumberOfTokens();
+		for (const Arc &activationArc : m_activationArcs)
+		{
+			if (lockWeakPtr(activationArc.place) == spPlace)
+			{
+				tokens -= activationArc.weight;
+			}
+		}
+		if (destinationArc.weight > ULLONG_MAX - tokens)
+		{
+			throw OverflowException(destinationArc.weight);
+		}
+	}
+}
+
 void Transition::exitActivationPlaces() const
 {
 	for (const Arc &activationArc : m_activationArcs)
diff --git a/PTN_Engine/Transition.h b/PTN_Engine/Transition.h
index 41f8146..aef2c79 100755
--- a/PTN_Engine/Transition.h
+++ b/PTN_Engine/Transition.h
@@ -138,6 +138,10 @@ private:
 	//! Removes the tokens from the activation places.
 	void exitActivationPlaces() const;
 
+	//! Checks that the destination places can receive their tokens, so that either all tokens move or none.
+	//! \throws OverflowException
+	void checkDestinationPlaces() const;
+
 	//!
 	//! \brief Evaluates if the transition can be fired.
 	//! \return true if can be fired, false if it cannot.
-- 
2.43.0


From bdf9f65f51dee6f048371576c53f308bbafa79eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:14 +0000
Subject: [PATCH 18/27] fix: a job queue that has no memory to start its thread
 must not stay marked as running

---
 PTN_Engine/JobQueue/JobQueue.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/PTN_Engine/JobQueue/JobQueue.cpp b/PTN_Engine/JobQueue/JobQueue.cpp
index bde84e0..1dc6181 100755
--- a/PTN_Engine/JobQueue/JobQueue.cpp
+++ b/PTN_Engine/JobQueue/JobQueue.cpp
@@ -71,6 +71,10 @@ void JobQueue::launch()
 		{
 			m_isJobQueueRunning = false;
 		}
+		catch (const std::bad_alloc &)
+		{
+			m_isJobQueueRunning = false;
+		}
 	}
 }
 
-- 
2.43.0


From 43c78908e0559de8720444f4335e43c866d8d8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:14 +0000
Subject: [PATCH 19/27] fix: an action that could not be handed over must not
 count as in execution

---
 PTN_Engine/Executor/DetachedExecutor.cpp |  2 +-
 PTN_Engine/Executor/JobQueueExecutor.cpp | 12 ++++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/PTN_Engine/Executor/DetachedExecutor.cpp b/PTN_Engine/Executor/DetachedExecutor.cpp
index 0ed098b..43a6616 100644
--- a/PTN_Engine/Executor/DetachedExecutor.cpp
+++ b/PTN_Engine/Executor/DetachedExecutor.cpp
@@ -27,12 +27,12 @@ using namespace std;
 
 void DetachedExecutor::executeAction(const ActionFunction &action, atomic<size_t> &actionsInExecution)
 {
-	++actionsInExecution;
 	auto job = [&actionsInExecution, action]()
 	{
 		action();
 		--actionsInExecution;
 	};
+	++actionsInExecution;
 	try
 	{
 		auto t = thread(job);
diff --git a/PTN_Engine/Executor/JobQueueExecutor.cpp b/PTN_Engine/Executor/JobQueueExecutor.cpp
index a199fa3..ce3fe8f 100644
--- a/PTN_Engine/Executor/JobQueueExecutor.cpp
+++ b/PTN_Engine/Executor/JobQueueExecutor.cpp
@@ -26,13 +26,21 @@ using namespace std;
 
 void JobQueueExecutor::executeAction(const ActionFunction &action, atomic<size_t> &actionsInExecution)
 {
-	++actionsInExecution;
 	auto f = [&actionsInExecution, action]()
 	{
 		action();
 		--actionsInExecution;
 	};
-	m_jobQueue.addJob(f);
+	++actionsInExecution;
+	try
+	{
+		m_jobQueue.addJob(f);
+	}
+	catch (...)
+	{
+		--actionsInExecution;
+		throw;
+	}
 }
 
 } // namespace ptne
-- 
2.43.0


From ed568b51db5a4d6d3873b13186251af9c3f782a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:14 +0000
Subject: [PATCH 20/27] fix: a failed registration must not leave the name
 taken by an empty function

---
 PTN_Engine/ManagedContainer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PTN_Engine/ManagedContainer.h b/PTN_Engine/ManagedContainer.h
index 386c986..7c4cc99 100755
--- a/PTN_Engine/ManagedContainer.h
+++ b/PTN_Engine/ManagedContainer.h
@@ -21,6 +21,7 @@
 #include <mutex>
 #include <shared_mutex>
 #include <unordered_map>
+#include <utility>
 #include <vector>
 
 namespace ptne
@@ -60,7 +61,7 @@ public:
 			throw RepeatedFunctionException(name);
 		}
 
-		m_items[name] = item;
+		m_items.emplace(name, std::move(item));
 	}
 
 	//!
-- 
2.43.0


From 28dc12c69ea4dbd8af5ad57a31f20b323ab76e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:14 +0000
Subject: [PATCH 21/27] fix: a place whose creation fails must not stay in the
 net

---
 PTN_Engine/PlacesManager.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/PTN_Engine/PlacesManager.cpp b/PTN_Engine/PlacesManager.cpp
index c37bab6..074f663 100755
--- a/PTN_Engine/PlacesManager.cpp
+++ b/PTN_Engine/PlacesManager.cpp
@@ -38,11 +38,23 @@ bool PlacesManager::contains(const string &itemName) const
 void PlacesManager::insert(const shared_ptr<Place> &spPlace)
 {
 	unique_lock itemsGuard(m_itemsMutex);
-	ManagerBase<Place>::insert(spPlace);
-	if (spPlace->isInputPlace())
+	const bool isInputPlace = spPlace != nullptr && spPlace->isInputPlace();
+	if (isInputPlace)
 	{
 		m_inputPlaces.push_back(spPlace);
 	}
+	try
+	{
+		ManagerBase<Place>::insert(spPlace);
+	}
+	catch (...)
+	{
+		if (isInputPlace)
+		{
+			m_inputPlaces.pop_back();
+		}
+		throw;
+	}
 }
 
 void PlacesManager::clear()
-- 
2.43.0


From 81601560f092806ef5fb3d840add843bbe95d728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:14 +0000
Subject: [PATCH 22/27] fix: a failed addition of a bidirectional arc must not
 leave half of it

---
 PTN_Engine/Transition.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/PTN_Engine/Transition.cpp b/PTN_Engine/Transition.cpp
index f3c866d..fd30caa 100755
--- a/PTN_Engine/Transition.cpp
+++ b/PTN_Engine/Transition.cpp
@@ -265,7 +265,15 @@ void Transition::addArc(const shared_ptr<Place> &place, const ArcProperties::Typ
 	{
 		checkNotIn(m_destinationArcs);
 		addArcTo(m_activationArcs);
-		addArcTo(m_destinationArcs);
+		try
+		{
+			addArcTo(m_destinationArcs);
+		}
+		catch (...)
+		{
+			m_activationArcs.pop_back();
+			throw;
+		}
 		break;
 	}
 	case DESTINATION:
-- 
2.43.0


From 404f9a124c04552b2732c926e8f1bdbc269011d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:07 +0000
Subject: [PATCH 23/27] fix: a failed removal of a bidirectional arc must not
 leave half of it

---
 PTN_Engine/Transition.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/PTN_Engine/Transition.cpp b/PTN_Engine/Transition.cpp
index fd30caa..2a7e3f1 100755
--- a/PTN_Engine/Transition.cpp
+++ b/PTN_Engine/Transition.cpp
@@ -322,9 +322,10 @@ void Transition::removeArc(const shared_ptr<Place> &place, const ArcProperties::
 	}
 	case BIDIRECTIONAL:
 	{
-		findIn(m_destinationArcs);
-		removePlaceFrom(m_activationArcs);
-		removePlaceFrom(m_destinationArcs);
+		const auto activationArc = findIn(m_activationArcs);
+		const auto destinationArc = findIn(m_destinationArcs);
+		m_activationArcs.erase(activationArc);
+		m_destinationArcs.erase(destinationArc);
 		break;
 	}
 	case DESTINATION:
-- 
2.43.0


From 938e30e4ed98be48e9e126cb37204f8b4836ece7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:15 +0000
Subject: [PATCH 24/27] fix: a very long sleep duration must not overflow the
 clock and keep the event loop busy

---
 PTN_Engine/EventLoop.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/PTN_Engine/EventLoop.cpp b/PTN_Engine/EventLoop.cpp
index 9fd76f6..e3ca87a 100755
--- a/PTN_Engine/EventLoop.cpp
+++ b/PTN_Engine/EventLoop.cpp
@@ -19,6 +19,7 @@
 #include "PTN_Engine/EventLoop.h"
 #include "PTN_Engine/IPTN_EngineEL.h"
 #include "PTN_Engine/PTN_Exception.h"
+#include <algorithm>
 #include <thread>
 
 namespace ptne
@@ -109,7 +110,9 @@ void EventLoop::run(stop_token stopToken, const bool log, ostream &o)
 	{
 		if (!m_ptnEngine.executeInt(log, o))
 		{
-			const auto sleepDuration = getSleepDuration();
+			// What is longer than a year would overflow the clock.
+			const auto sleepDuration =
+			clamp<SleepDuration>(getSleepDuration(), SleepDuration::zero(), chrono::hours(24 * 365));
 			unique_lock eventNotifierGuard(m_eventNotifierMutex);
 			m_eventNotifier.wait_for(eventNotifierGuard, sleepDuration,
 									 [this, &stopToken]
-- 
2.43.0


From 7f1fcb1261235bcdc48255df09413a0e64a50d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:15 +0000
Subject: [PATCH 25/27] fix: numbers and flags of a file that mean nothing must
 not be imported as something else

---
 .../XML/src/XML/XML_FileImporter.cpp          | 59 ++++++++++---------
 1 file changed, 32 insertions(+), 27 deletions(-)

diff --git a/PTN_Engine/ImportExport/XML/src/XML/XML_FileImporter.cpp b/PTN_Engine/ImportExport/XML/src/XML/XML_FileImporter.cpp
index 8f2f4cc..401ef79 100644
--- a/PTN_Engine/ImportExport/XML/src/XML/XML_FileImporter.cpp
+++ b/PTN_Engine/ImportExport/XML/src/XML/XML_FileImporter.cpp
@@ -35,6 +35,33 @@ string getAttributeValue(const xml_node &node, const string &attrName)
 	return node.attribute(attrName.c_str()).value();
 }
 
+bool toBool(const string &name, const string &value)
+{
+	if (value == "true")
+	{
+		return true;
+	}
+	else if (value == "false")
+	{
+		return false;
+	}
+	else
+	{
+		throw PTN_Exception("Invalid value for " + name + ": " + value);
+	}
+}
+
+size_t toNumber(const string &name, const string &value)
+{
+	size_t result{};
+	const char *end = value.data() + value.size();
+	if (auto [ptr, ec] = from_chars(value.data(), end, result); ec != errc() || ptr != end)
+	{
+		throw PTN_Exception("Invalid value for " + name + ": " + value);
+	}
+	return result;
+}
+
 vector<string> collectTransitionAttributes(const xml_node &transition, const string &attribute)
 {
 	vector<string> activationConditions;
@@ -55,7 +82,7 @@ collectArcAttributes(const xml_node &transition, const string &attribute, const
 		const string weightStr(activationCondition.attribute("weight").value());
 		if (!string(activationCondition.attribute("weight").value()).empty())
 		{
-			weight = strtoull(weightStr.c_str(), nullptr, 10);
+			weight = toNumber("weight", weightStr);
 		}
 
 		arcsProperties.emplace_back(weight, activationCondition.attribute("name").value(), activationConditionName,
@@ -73,35 +100,13 @@ T getNodeValue(const string &nodeName, const xml_node &xmlNode)
 template <>
 bool getNodeValue(const string &nodeName, const xml_node &xmlNode)
 {
-	const string v = xmlNode.child(nodeName.c_str()).attribute("value").value();
-	if (v == "true")
-	{
-		return true;
-	}
-	else if (v == "false")
-	{
-		return false;
-	}
-	else
-	{
-		throw PTN_Exception("Invalid value for " + nodeName + ": " + v);
-	}
+	return toBool(nodeName, xmlNode.child(nodeName.c_str()).attribute("value").value());
 }
 
 template <>
 size_t getNodeValue(const string &nodeName, const xml_node &xmlNode)
 {
-	const string v = xmlNode.child(nodeName.c_str()).attribute("value").value();
-
-	size_t result{};
-	auto [ptr, ec] = from_chars(v.data(), v.data() + v.size(), result);
-
-	if (ec != errc())
-	{
-		throw PTN_Exception("Could not convert from string to int");
-	}
-
-	return result;
+	return toNumber(nodeName, xmlNode.child(nodeName.c_str()).attribute("value").value());
 }
 
 } // namespace
@@ -133,13 +138,13 @@ vector<PlaceProperties> XML_FileImporter::importPlaces() const
 		bool isInput = false;
 		if (const string isInputStr = getAttributeValue(place, "input"); !isInputStr.empty())
 		{
-			isInput = isInputStr == "true" ? true : false;
+			isInput = toBool("input", isInputStr);
 		}
 
 		size_t numberOfTokens = 0;
 		if (const string numberOfTokensStr = getAttributeValue(place, "tokens"); !numberOfTokensStr.empty())
 		{
-			numberOfTokens = strtoull(numberOfTokensStr.c_str(), nullptr, 10);
+			numberOfTokens = toNumber("tokens", numberOfTokensStr);
 		}
 
 		placeProperties.name = getAttributeValue(place, "name");
-- 
2.43.0


From 1e4214e2e563b4b84f639d015e193640226e06c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:15 +0000
Subject: [PATCH 26/27] fix: a name that a file cannot hold must not be
 exported cut off

---
 .../XML/src/XML/XML_FileExporter.cpp          | 26 ++++++++++++++-----
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp b/PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp
index 7010a85..af821c4 100644
--- a/PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp
+++ b/PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp
@@ -27,6 +27,18 @@ namespace ptne
 using namespace pugi;
 using namespace std;
 
+namespace
+{
+const char *toText(const string &value)
+{
+	if (value.find('\0') != string::npos)
+	{
+		throw PTN_Exception("Cannot export a name with a null character: " + value);
+	}
+	return value.c_str();
+}
+} // namespace
+
 XML_FileExporter::~XML_FileExporter() = default;
 
 void XML_FileExporter::_export(const PTN_Engine &ptnEngine, const string &filePath)
@@ -52,11 +64,11 @@ void XML_FileExporter::exportActionsThreadOption(const string &actionsThreadOpti
 void XML_FileExporter::exportPlace(const PlaceProperties &placeProperties)
 {
 	xml_node placeNode = m_placesNode.append_child("Place");
-	placeNode.append_attribute("name").set_value(placeProperties.name.c_str());
+	placeNode.append_attribute("name").set_value(toText(placeProperties.name));
 	placeNode.append_attribute("tokens").set_value(placeProperties.initialNumberOfTokens);
 	placeNode.append_attribute("input").set_value(placeProperties.input ? true : false);
-	placeNode.append_attribute("onEnterAction").set_value(placeProperties.onEnterActionFunctionName.c_str());
-	placeNode.append_attribute("onExitAction").set_value(placeProperties.onExitActionFunctionName.c_str());
+	placeNode.append_attribute("onEnterAction").set_value(toText(placeProperties.onEnterActionFunctionName));
+	placeNode.append_attribute("onExitAction").set_value(toText(placeProperties.onExitActionFunctionName));
 }
 
 void XML_FileExporter::exportTransition(const TransitionProperties &transitionProperties)
@@ -64,13 +76,13 @@ void XML_FileExporter::exportTransition(const TransitionProperties &transitionPr
 	xml_node transitionNode = m_transitionsNode.append_child("Transition");
 
 	xml_node name = transitionNode.append_child("Name");
-	name.append_attribute("value").set_value(transitionProperties.name.c_str());
+	name.append_attribute("value").set_value(toText(transitionProperties.name));
 
 	xml_node activationConditionsNode = transitionNode.append_child("ActivationConditions");
 	for (const auto &activationCondition : transitionProperties.additionalConditionsNames)
 	{
 		xml_node activationConditionNode = activationConditionsNode.append_child("ActivationCondition");
-		activationConditionNode.append_attribute("name").set_value(activationCondition.c_str());
+		activationConditionNode.append_attribute("name").set_value(toText(activationCondition));
 	}
 
 	xml_node requireNoActionsInExecution = transitionNode.append_child("RequireNoActionsInExecution");
@@ -83,10 +95,10 @@ void XML_FileExporter::exportTransition(const TransitionProperties &transitionPr
 		{
 			xml_node arcNode = m_arcsNode.append_child("Arc");
 			xml_node place = arcNode.append_child("Place");
-			place.append_attribute("value").set_value(arcProperties.placeName.c_str());
+			place.append_attribute("value").set_value(toText(arcProperties.placeName));
 
 			xml_node transition = arcNode.append_child("Transition");
-			transition.append_attribute("value").set_value(arcProperties.transitionName.c_str());
+			transition.append_attribute("value").set_value(toText(arcProperties.transitionName));
 
 			xml_node weight = arcNode.append_child("Weight");
 			weight.append_attribute("value").set_value(to_string(arcProperties.weight).c_str());
-- 
2.43.0


From 611e002329f5c22dd2bb9b76c6507cb20e512738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:01 +0000
Subject: [PATCH 27/27] fix: an input whose action fails is announced to the
 event loop

The token enters the place before its on enter action is started. If that
throws, or its thread cannot be created, the event loop was not told about the
token, which then waited for the watchdog.
---
 PTN_Engine/PTN_EngineImp.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/PTN_Engine/PTN_EngineImp.cpp b/PTN_Engine/PTN_EngineImp.cpp
index fd8a521..672d6d6 100755
--- a/PTN_Engine/PTN_EngineImp.cpp
+++ b/PTN_Engine/PTN_EngineImp.cpp
@@ -111,7 +111,17 @@ size_t PTN_EngineImp::getNumberOfTokens(const string &place) const
 
 void PTN_EngineImp::incrementInputPlace(const string &place)
 {
-	m_places.incrementInputPlace(place);
+	try
+	{
+		m_places.incrementInputPlace(place);
+	}
+	catch (...)
+	{
+		// The token may have entered the place before its on enter action failed.
+		m_newInputReceived = true;
+		m_eventLoop.notifyNewEvent();
+		throw;
+	}
 	m_newInputReceived = true;
 	m_eventLoop.notifyNewEvent();
 }
-- 
2.43.0

