From 2708c8e0ac6842a40a162923a5bb8285cf922a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:20 +0000
Subject: [PATCH 01/36] fix: record the error code, a text for FileNotReadable,
 and guard the last error with a mutex

---
 src/efsw/Log.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/efsw/Log.cpp b/src/efsw/Log.cpp
index 6f32df7..b6a80fc 100644
--- a/src/efsw/Log.cpp
+++ b/src/efsw/Log.cpp
@@ -1,29 +1,41 @@
 #include <efsw/efsw.hpp>
 #include <efsw/Debug.hpp>
+#include <efsw/Lock.hpp>
 
 namespace efsw { namespace Errors {
 
 static std::string LastError = "";
 static Error LastErrorCode = NoError;
+static Mutex LastErrorMutex;
 
 std::string Log::getLastErrorLog() {
+	Lock l( LastErrorMutex );
 	return LastError;
 }
 
 Error Log::getLastErrorCode() {
+	Lock l( LastErrorMutex );
 	return LastErrorCode;
 }
 
 void Log::clearLastError() {
+	Lock l( LastErrorMutex );
 	LastErrorCode = NoError;
 	LastError = "";
 }
 
 Error Log::createLastError( Error err, std::string log ) {
+	Lock l( LastErrorMutex );
+
+	LastErrorCode = err;
+
 	switch ( err ) {
 		case FileNotFound:
 			LastError = "File not found ( " + log + " )";
 			break;
+		case FileNotReadable:
+			LastError = "File not readable ( " + log + " )";
+			break;
 		case FileRepeated:
 			LastError = "File repeated in watches ( " + log + " )";
 			break;
-- 
2.43.0


From 73b2b366f6545113df13946b3e437c6bc88b042c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:20 +0000
Subject: [PATCH 02/36] fix: name the directory in the last error when
 inotify_add_watch fails

---
 src/efsw/FileWatcherInotify.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 7f5fde4..92611b7 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -127,7 +127,8 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 			return Errors::Log::createLastError( Errors::FileNotFound, dir );
 		} else {
 			return Errors::Log::createLastError( Errors::Unspecified,
-												 std::string( strerror( errno ) ) );
+												 std::string( strerror( errno ) ) + " ( " + dir +
+													 " )" );
 		}
 	}
 
-- 
2.43.0


From f983ac86192de6729da420ca2872a8c2b7879149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:37 +0000
Subject: [PATCH 03/36] fix: release the C callbacks of a watcher, all of them,
 after its thread has ended

---
 src/efsw/FileWatcherCWrapper.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/efsw/FileWatcherCWrapper.cpp b/src/efsw/FileWatcherCWrapper.cpp
index 4a82dfc..b1b232d 100644
--- a/src/efsw/FileWatcherCWrapper.cpp
+++ b/src/efsw/FileWatcherCWrapper.cpp
@@ -49,15 +49,14 @@ Watcher_CAPI* find_callback( efsw_watcher watcher, efsw_pfn_fileaction_callback
 	return NULL;
 }
 
-void remove_callback( efsw_watcher watcher ) {
+std::vector<Watcher_CAPI*> take_callbacks( efsw_watcher watcher ) {
 	efsw::Lock l( g_callbacksMutex );
-	auto found = std::find_if( g_callbacks.begin(), g_callbacks.end(),
-							   [watcher]( Watcher_CAPI* cb ) { return cb->mWatcher == watcher; } );
-	if ( found != g_callbacks.end() ) {
-		Watcher_CAPI* callback = *found;
-		delete callback;
-		g_callbacks.erase( found );
-	}
+	auto found = std::stable_partition(
+		g_callbacks.begin(), g_callbacks.end(),
+		[watcher]( Watcher_CAPI* cb ) { return cb->mWatcher != watcher; } );
+	std::vector<Watcher_CAPI*> callbacks( found, g_callbacks.end() );
+	g_callbacks.erase( found, g_callbacks.end() );
+	return callbacks;
 }
 
 /*************************************************************************************************/
@@ -66,8 +65,11 @@ efsw_watcher efsw_create( int generic_mode ) {
 }
 
 void efsw_release( efsw_watcher watcher ) {
-	remove_callback( watcher );
+	std::vector<Watcher_CAPI*> callbacks = take_callbacks( watcher );
 	delete (efsw::FileWatcher*)watcher;
+	/// The watcher thread could be using the callbacks until the watcher is destroyed
+	for ( Watcher_CAPI* callback : callbacks )
+		delete callback;
 }
 
 const char* efsw_getlasterror() {
-- 
2.43.0


From dd651e3f47386b0c211ccbc322637edc7af5cba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:37 +0000
Subject: [PATCH 04/36] fix: do not share a C callback between watches with
 different missed-actions callbacks

---
 src/efsw/FileWatcherCWrapper.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/efsw/FileWatcherCWrapper.cpp b/src/efsw/FileWatcherCWrapper.cpp
index b1b232d..b233877 100644
--- a/src/efsw/FileWatcherCWrapper.cpp
+++ b/src/efsw/FileWatcherCWrapper.cpp
@@ -40,10 +40,12 @@ class Watcher_CAPI : public efsw::FileWatchListener {
 static std::vector<Watcher_CAPI*> g_callbacks;
 static efsw::Mutex g_callbacksMutex;
 
-Watcher_CAPI* find_callback( efsw_watcher watcher, efsw_pfn_fileaction_callback fn, void* param ) {
+Watcher_CAPI* find_callback( efsw_watcher watcher, efsw_pfn_fileaction_callback fn, void* param,
+							 efsw_pfn_handle_missed_fileactions fnfa ) {
 	efsw::Lock l( g_callbacksMutex );
 	for ( Watcher_CAPI* callback : g_callbacks ) {
-		if ( callback->mFn == fn && callback->mWatcher == watcher && callback->mParam == param )
+		if ( callback->mFn == fn && callback->mWatcher == watcher && callback->mParam == param &&
+			 callback->mFnMissedFa == fnfa )
 			return callback;
 	}
 	return NULL;
@@ -93,7 +95,8 @@ efsw_addwatch_withoptions( efsw_watcher watcher, const char* directory,
 						   efsw_pfn_fileaction_callback callback_fn, int recursive,
 						   efsw_watcher_option* options, int options_number, void* param,
 						   efsw_pfn_handle_missed_fileactions callback_fn_missed_file_actions ) {
-	Watcher_CAPI* callback = find_callback( watcher, callback_fn, param );
+	Watcher_CAPI* callback =
+		find_callback( watcher, callback_fn, param, callback_fn_missed_file_actions );
 
 	if ( callback == NULL ) {
 		callback = new Watcher_CAPI( watcher, callback_fn, param, callback_fn_missed_file_actions );
-- 
2.43.0


From 2341e4a139fb381b19673c7f35c51bfe2bfce036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:28 +0000
Subject: [PATCH 05/36] fix: announce a queue overflow to every user watch

---
 src/efsw/FileWatcherInotify.cpp | 30 ++++++++++++++++++++++++++++++
 src/efsw/FileWatcherInotify.hpp |  2 ++
 2 files changed, 32 insertions(+)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 92611b7..2499488 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -329,6 +329,9 @@ void FileWatcherInotify::run() {
 					{
 						curWatcher = NULL;
 
+						if ( pevent->mask & IN_Q_OVERFLOW )
+							handleOverflow();
+
 						{
 							Lock lock( mWatchesLock );
 
@@ -640,6 +643,33 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 	mIsTakingAction = false;
 }
 
+void FileWatcherInotify::handleOverflow() {
+	/// The overflow isn't bound to any watch descriptor: every user watch could have missed events.
+	/// The watches are looked up one by one since the listener could remove them.
+	Lock initLock( mInitLock );
+	std::vector<WatchID> ids;
+
+	{
+		Lock l( mRealWatchesLock );
+		for ( WatchMap::iterator it = mRealWatches.begin(); it != mRealWatches.end(); ++it )
+			ids.push_back( it->first );
+	}
+
+	for ( WatchID id : ids ) {
+		WatcherInotify* watch = NULL;
+
+		{
+			Lock l( mRealWatchesLock );
+			WatchMap::iterator it = mRealWatches.find( id );
+			if ( it != mRealWatches.end() )
+				watch = it->second;
+		}
+
+		if ( watch )
+			handleAction( watch, "", IN_Q_OVERFLOW );
+	}
+}
+
 std::vector<std::string> FileWatcherInotify::directories() {
 	std::vector<std::string> dirs;
 
diff --git a/src/efsw/FileWatcherInotify.hpp b/src/efsw/FileWatcherInotify.hpp
index 3b58a21..5702559 100644
--- a/src/efsw/FileWatcherInotify.hpp
+++ b/src/efsw/FileWatcherInotify.hpp
@@ -73,6 +73,8 @@ class FileWatcherInotify : public FileWatcherImpl {
   private:
 	void run();
 
+	void handleOverflow();
+
 	void removeWatchLocked( WatchID watchid, bool skipInotifyRemove = false );
 
 	void checkForNewWatcher( Watcher* watch, std::string fpath );
-- 
2.43.0


From ee59a995aca07dd06bf303c9f19083b73f8503bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:28 +0000
Subject: [PATCH 06/36] fix: pair the halves of a rename by cookie only, and
 report a move outside before any later event

---
 src/efsw/FileWatcherInotify.cpp | 247 +++++++++++---------------------
 src/efsw/FileWatcherInotify.hpp |   6 +-
 2 files changed, 87 insertions(+), 166 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 2499488..d47c6f0 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -23,7 +23,12 @@
 namespace efsw {
 
 FileWatcherInotify::FileWatcherInotify( FileWatcher* parent ) :
-	FileWatcherImpl( parent ), mFD( -1 ), mThread( NULL ), mIsTakingAction( false ) {
+	FileWatcherImpl( parent ),
+	mFD( -1 ),
+	mThread( NULL ),
+	mIsTakingAction( false ),
+	mCurrentMoveFrom( NULL ),
+	mCurrentMoveCookie( 0 ) {
 	mFD = inotify_init();
 
 	if ( mFD < 0 ) {
@@ -203,14 +208,8 @@ void FileWatcherInotify::removeWatchLocked( WatchID watchid, bool skipInotifyRem
 
 	WatcherInotify* watch = iter->second;
 
-	for ( std::vector<std::pair<WatcherInotify*, std::string>>::iterator itm =
-			  mMovedOutsideWatches.begin();
-		  mMovedOutsideWatches.end() != itm; ++itm ) {
-		if ( itm->first == watch ) {
-			mMovedOutsideWatches.erase( itm );
-			break;
-		}
-	}
+	if ( mCurrentMoveFrom == watch )
+		mCurrentMoveFrom = NULL;
 
 	if ( watch->Recursive && NULL == watch->Parent ) {
 		WatchMap::iterator it = mWatches.begin();
@@ -302,10 +301,6 @@ void FileWatcherInotify::run() {
 	memset( buff, 0, BUFF_SIZE );
 
 	WatcherInotify* curWatcher = NULL;
-	WatcherInotify* currentMoveFrom = NULL;
-	uint32_t currentMoveCookie = -1;
-	bool lastWasMovedFrom = false;
-	std::string prevOldFileName;
 
 	do {
 		fd_set rfds;
@@ -315,7 +310,9 @@ void FileWatcherInotify::run() {
 		timeout.tv_sec = 0;
 		timeout.tv_usec = 100000;
 
-		if ( select( FD_SETSIZE, &rfds, NULL, NULL, &timeout ) > 0 ) {
+		int ready = select( FD_SETSIZE, &rfds, NULL, NULL, &timeout );
+
+		if ( ready > 0 ) {
 			ssize_t len;
 
 			len = read( mFD, buff, BUFF_SIZE );
@@ -327,6 +324,11 @@ void FileWatcherInotify::run() {
 					struct inotify_event* pevent = (struct inotify_event*)&buff[i];
 
 					{
+						// A move from is only completed by the very next event being its move to
+						if ( mCurrentMoveFrom && !( ( pevent->mask & IN_MOVED_TO ) &&
+													pevent->cookie == mCurrentMoveCookie ) )
+							handleMovedOutside();
+
 						curWatcher = NULL;
 
 						if ( pevent->mask & IN_Q_OVERFLOW )
@@ -345,198 +347,113 @@ void FileWatcherInotify::run() {
 							handleAction( curWatcher, (char*)pevent->name, pevent->mask );
 
 							// Check if this is the destination of a move
-							if ( ( pevent->mask & IN_MOVED_TO ) && currentMoveFrom &&
-								 pevent->cookie == currentMoveCookie ) {
+							if ( ( pevent->mask & IN_MOVED_TO ) && mCurrentMoveFrom ) {
 
 								// If the move happened between TWO DIFFERENT watched directories
-								if ( curWatcher != currentMoveFrom ) {
+								if ( curWatcher != mCurrentMoveFrom ) {
 									// We need to simulate a delete event, the IN_MOVED_TO will
 									// generate an add event after
-									handleAction( currentMoveFrom, currentMoveFrom->OldFileName,
-												  IN_DELETE );
+									std::string oldFileName( mCurrentMoveFrom->OldFileName );
 
 									// Clear the state on the source watcher so it doesn't
 									// get processed again or stuck with stale data.
-									currentMoveFrom->OldFileName = "";
+									mCurrentMoveFrom->OldFileName = "";
+
+									handleAction( mCurrentMoveFrom, oldFileName, IN_DELETE );
 								}
-								// Else: If curWatcher == currentMoveFrom, it's a local rename.
+								// Else: If curWatcher == mCurrentMoveFrom, it's a local rename.
 								// handleAction() above already detected the OldFileName and
 								// emitted a 'Moved' event correctly.
 
 								/// Pair processed successfully
-								currentMoveFrom = NULL;
-								currentMoveCookie = -1;
+								mCurrentMoveFrom = NULL;
 							} else if ( pevent->mask & IN_MOVED_FROM ) {
-								// Previous event was moved from and current event is moved from
-								// Treat it as a DELETE or moved outside watches
-								if ( lastWasMovedFrom && currentMoveFrom ) {
-									mMovedOutsideWatches.push_back(
-										std::make_pair( currentMoveFrom, prevOldFileName ) );
-								}
-
-								currentMoveFrom = curWatcher;
-								currentMoveCookie = pevent->cookie;
-							} else {
 								/// Keep track of the IN_MOVED_FROM events to know
 								/// if the IN_MOVED_TO event is also fired
-								if ( currentMoveFrom ) {
-									if ( std::find_if( mMovedOutsideWatches.begin(),
-													   mMovedOutsideWatches.end(),
-													   [currentMoveFrom](
-														   const std::pair<WatcherInotify*,
-																		   std::string>& moved ) {
-														   return moved.first == currentMoveFrom;
-													   } ) == mMovedOutsideWatches.end() ) {
-										mMovedOutsideWatches.push_back(
-											std::make_pair( currentMoveFrom, prevOldFileName ) );
-									} else {
-										efDEBUG( "Info: Tried to add watch to the moved outside "
-												 "watches but it was already there, Watch ID: %d - "
-												 "Address: %p - Path: \"%s\" - prevOldFileName: "
-												 "\"%s\"\n",
-												 pevent->wd, currentMoveFrom,
-												 currentMoveFrom->Directory.c_str(),
-												 prevOldFileName.c_str() );
-									}
-								}
-
-								currentMoveFrom = NULL;
-								currentMoveCookie = -1;
+								mCurrentMoveFrom = curWatcher;
+								mCurrentMoveCookie = pevent->cookie;
 							}
+						} else if ( mCurrentMoveFrom ) {
+							// The destination isn't watched anymore
+							handleMovedOutside();
 						}
-
-						lastWasMovedFrom = ( pevent->mask & IN_MOVED_FROM ) != 0;
-						if ( pevent->mask & IN_MOVED_FROM )
-							prevOldFileName = std::string( (char*)pevent->name );
 					}
 
 					i += sizeof( struct inotify_event ) + pevent->len;
 				}
 			}
-
-			// If the last event was also IN_MODEV_FROM we didn't generate any event for that one
-			// Treat it as a DELETE or moved outside watches
-			if ( lastWasMovedFrom && currentMoveFrom ) {
-				mMovedOutsideWatches.push_back(
-					std::make_pair( currentMoveFrom, prevOldFileName ) );
-				currentMoveFrom = NULL;
-				lastWasMovedFrom = false;
-				prevOldFileName.clear();
-			}
-		} else {
+		} else if ( 0 == ready ) {
 			// Here means no event received
 			// If last event is IN_MOVED_FROM, we assume no IN_MOVED_TO
-			if ( currentMoveFrom ) {
-				if ( std::find_if(
-						 mMovedOutsideWatches.begin(), mMovedOutsideWatches.end(),
-						 [currentMoveFrom]( const std::pair<WatcherInotify*, std::string>& moved ) {
-							 return moved.first == currentMoveFrom;
-						 } ) == mMovedOutsideWatches.end() &&
-					 !currentMoveFrom->OldFileName.empty() ) {
-					mMovedOutsideWatches.push_back(
-						std::make_pair( currentMoveFrom, currentMoveFrom->OldFileName ) );
-				} else {
-					efDEBUG( "Warning: Tried to add watch to the moved outside "
-							 "watches but it was already there, Watch Address: %p\n",
-							 currentMoveFrom );
+			handleMovedOutside();
+		}
+
+		{
+			Lock lock( mWatchesLock );
+			if ( !mDeletedWatches.empty() ) {
+				for ( auto w : mDeletedWatches ) {
+					efSAFE_DELETE( w );
 				}
+				mDeletedWatches.clear();
 			}
-
-			currentMoveFrom = NULL;
-			currentMoveCookie = -1;
 		}
+	} while ( mInitOK );
 
-		if ( !mMovedOutsideWatches.empty() ) {
-			// We need to make a copy since the element mMovedOutsideWatches could be modified
-			// during the iteration.
-			std::vector<std::pair<WatcherInotify*, std::string>> movedOutsideWatches(
-				mMovedOutsideWatches );
-
-			/// In case that the IN_MOVED_TO is never fired means that the file was moved to other
-			/// folder
-			for ( std::vector<std::pair<WatcherInotify*, std::string>>::iterator it =
-					  movedOutsideWatches.begin();
-				  it != movedOutsideWatches.end(); ++it ) {
-
-				// Skip if the watch has already being removed
-				if ( mMovedOutsideWatches.size() != movedOutsideWatches.size() ) {
-					bool found = false;
-					for ( std::vector<std::pair<WatcherInotify*, std::string>>::iterator itm =
-							  mMovedOutsideWatches.begin();
-						  mMovedOutsideWatches.end() != itm; ++itm ) {
-						if ( itm->first == it->first ) {
-							found = true;
-							break;
-						}
-					}
-					if ( !found )
-						continue;
-				}
+	delete[] buff;
+}
 
-				Watcher* watch = it->first;
+void FileWatcherInotify::handleMovedOutside() {
+	/// In case that the IN_MOVED_TO is never fired means that the file was moved to other folder
+	WatcherInotify* watch = mCurrentMoveFrom;
 
-				// Clear the stale OldFileName.
-				// Since this move is considered complete (moved outside),
-				// the watcher should not be waiting for a pair anymore.
-				watch->OldFileName = "";
+	if ( !watch )
+		return;
 
-				const std::string& oldFileName = it->second;
+	std::string oldFileName( watch->OldFileName );
 
-				/// Check if the file move was a folder already being watched
-				std::vector<Watcher*> eraseWatches;
+	// Clear the stale OldFileName.
+	// Since this move is considered complete (moved outside),
+	// the watcher should not be waiting for a pair anymore.
+	watch->OldFileName = "";
+	mCurrentMoveFrom = NULL;
 
-				{
-					Lock lock( mWatchesLock );
+	/// Check if the file move was a folder already being watched
+	std::vector<Watcher*> eraseWatches;
 
-					for ( auto wit : mWatches ) {
-						Watcher* oldWatch = wit.second;
+	{
+		Lock lock( mWatchesLock );
 
-						if ( oldWatch != watch &&
-							 -1 != String::strStartsWith( watch->Directory + oldFileName + "/",
-														  oldWatch->Directory ) ) {
-							eraseWatches.push_back( oldWatch );
-						}
-					}
-				}
+		for ( auto wit : mWatches ) {
+			Watcher* oldWatch = wit.second;
 
-				/// Remove invalid watches
-				std::stable_sort( eraseWatches.begin(), eraseWatches.end(),
-								  []( const Watcher* left, const Watcher* right ) {
-									  return left->Directory < right->Directory;
-								  } );
-
-				if ( eraseWatches.empty() ) {
-					handleAction( watch, oldFileName, IN_DELETE );
-				} else {
-					for ( std::vector<Watcher*>::reverse_iterator eit = eraseWatches.rbegin();
-						  eit != eraseWatches.rend(); ++eit ) {
-						Watcher* rmWatch = *eit;
-
-						/// Create Delete event for removed watches that have been moved too
-						if ( Watcher* cntWatch = watcherContainsDirectory( rmWatch->Directory ) ) {
-							handleAction( cntWatch,
-										  FileSystem::fileNameFromPath( rmWatch->Directory ),
-										  IN_DELETE );
-						}
-					}
-				}
+			if ( oldWatch != watch && -1 != String::strStartsWith(
+												watch->Directory + oldFileName + "/",
+												oldWatch->Directory ) ) {
+				eraseWatches.push_back( oldWatch );
 			}
-
-			mMovedOutsideWatches.clear();
 		}
+	}
 
-		{
-			Lock lock( mWatchesLock );
-			if ( !mDeletedWatches.empty() ) {
-				for ( auto w : mDeletedWatches ) {
-					efSAFE_DELETE( w );
-				}
-				mDeletedWatches.clear();
+	/// Remove invalid watches
+	std::stable_sort( eraseWatches.begin(), eraseWatches.end(),
+					  []( const Watcher* left, const Watcher* right ) {
+						  return left->Directory < right->Directory;
+					  } );
+
+	if ( eraseWatches.empty() ) {
+		handleAction( watch, oldFileName, IN_DELETE );
+	} else {
+		for ( std::vector<Watcher*>::reverse_iterator eit = eraseWatches.rbegin();
+			  eit != eraseWatches.rend(); ++eit ) {
+			Watcher* rmWatch = *eit;
+
+			/// Create Delete event for removed watches that have been moved too
+			if ( Watcher* cntWatch = watcherContainsDirectory( rmWatch->Directory ) ) {
+				handleAction( cntWatch, FileSystem::fileNameFromPath( rmWatch->Directory ),
+							  IN_DELETE );
 			}
 		}
-	} while ( mInitOK );
-
-	delete[] buff;
+	}
 }
 
 void FileWatcherInotify::checkForNewWatcher( Watcher* watch, std::string fpath ) {
diff --git a/src/efsw/FileWatcherInotify.hpp b/src/efsw/FileWatcherInotify.hpp
index 5702559..9195ae3 100644
--- a/src/efsw/FileWatcherInotify.hpp
+++ b/src/efsw/FileWatcherInotify.hpp
@@ -61,7 +61,9 @@ class FileWatcherInotify : public FileWatcherImpl {
 	Mutex mRealWatchesLock;
 	Mutex mInitLock;
 	bool mIsTakingAction;
-	std::vector<std::pair<WatcherInotify*, std::string>> mMovedOutsideWatches;
+	/// Watch of the last event, when it was a move from still waiting for its move to
+	WatcherInotify* mCurrentMoveFrom;
+	uint32_t mCurrentMoveCookie;
 	std::vector<WatcherInotify*> mDeletedWatches;
 
 	WatchID addWatch( const std::string& directory, FileWatchListener* watcher, bool recursive,
@@ -75,6 +77,8 @@ class FileWatcherInotify : public FileWatcherImpl {
 
 	void handleOverflow();
 
+	void handleMovedOutside();
+
 	void removeWatchLocked( WatchID watchid, bool skipInotifyRemove = false );
 
 	void checkForNewWatcher( Watcher* watch, std::string fpath );
-- 
2.43.0


From 686e1a594c49868a76f5e2b5908d2af3d9947057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:19 +0000
Subject: [PATCH 07/36] fix: follow a directory renamed again, or before it was
 watched

---
 src/efsw/FileWatcherInotify.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index d47c6f0..dff32a8 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -514,7 +514,8 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 											   Actions::Moved, watch->OldFileName );
 		}
 
-		if ( watch->Recursive && FileSystem::isDirectory( fpath ) && !watch->OldFileName.empty() ) {
+		/// The directory could have been already renamed again, its events will follow
+		if ( watch->Recursive && ( IN_ISDIR & action ) && !watch->OldFileName.empty() ) {
 			/// Update the new directory path
 			std::string opath( watch->Directory + watch->OldFileName );
 			FileSystem::dirAddSlashAtEnd( opath );
@@ -531,6 +532,9 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 					it->second->DirInfo.Filepath = it->second->Directory;
 				}
 			}
+
+			/// The directory could have been renamed before it was possible to watch it
+			checkForNewWatcher( watch, fpath );
 		}
 
 		watch->OldFileName = "";
-- 
2.43.0


From ea6e8b3b8d3c225e7eed94915bb00f16fb82e341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:41 +0000
Subject: [PATCH 08/36] fix: watch the subdirectories created in a directory
 just before it was renamed

---
 src/efsw/FileWatcherInotify.cpp | 35 +++++++++++++++++++++++++++++++--
 src/efsw/FileWatcherInotify.hpp |  2 ++
 2 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index dff32a8..0740d24 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -5,6 +5,7 @@
 
 #include <errno.h>
 #include <fcntl.h>
+#include <set>
 #include <stdio.h>
 #include <string.h>
 #include <sys/inotify.h>
@@ -156,6 +157,8 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 	pWatch->Directory = dir;
 	pWatch->Recursive = recursive;
 	pWatch->Parent = parent;
+	pWatch->DirInfo = fi;
+	pWatch->DirInfo.Filepath = dir;
 	pWatch->syntheticEvents = syntheticEvents;
 
 	{
@@ -483,6 +486,32 @@ void FileWatcherInotify::checkForNewWatcher( Watcher* watch, std::string fpath )
 	}
 }
 
+void FileWatcherInotify::checkForNewSubWatchers( const std::string& dir ) {
+	std::vector<WatcherInotify*> watches;
+	std::set<Uint64> inodes;
+
+	{
+		Lock lock( mWatchesLock );
+
+		for ( WatchMap::iterator it = mWatches.begin(); it != mWatches.end(); ++it ) {
+			inodes.insert( it->second->DirInfo.Inode );
+
+			if ( -1 != String::strStartsWith( dir, it->second->Directory ) )
+				watches.push_back( it->second );
+		}
+	}
+
+	for ( WatcherInotify* watch : watches ) {
+		FileInfoMap files = FileSystem::filesInfoFromPath( watch->Directory );
+
+		for ( FileInfoMap::iterator it = files.begin(); it != files.end(); ++it ) {
+			/// A directory already watched under another path has its own rename still pending
+			if ( it->second.isDirectory() && inodes.find( it->second.Inode ) == inodes.end() )
+				checkForNewWatcher( watch, it->second.Filepath );
+		}
+	}
+}
+
 void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filename,
 									   unsigned long action, const std::string& ) {
 	if ( !watch || !watch->Listener || !mInitOK ) {
@@ -526,15 +555,17 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 			for ( WatchMap::iterator it = mWatches.begin(); it != mWatches.end(); ++it ) {
 				if ( it->second->Directory == opath ) {
 					it->second->Directory = fpath;
-					it->second->DirInfo = FileInfo( fpath );
+					it->second->DirInfo.Filepath = fpath;
 				} else if ( -1 != String::strStartsWith( opath, it->second->Directory ) ) {
 					it->second->Directory = fpath + it->second->Directory.substr( opath.size() );
 					it->second->DirInfo.Filepath = it->second->Directory;
 				}
 			}
 
-			/// The directory could have been renamed before it was possible to watch it
+			/// The directory, or any new subdirectory of it, could have been renamed before it was
+			/// possible to watch it
 			checkForNewWatcher( watch, fpath );
+			checkForNewSubWatchers( fpath );
 		}
 
 		watch->OldFileName = "";
diff --git a/src/efsw/FileWatcherInotify.hpp b/src/efsw/FileWatcherInotify.hpp
index 9195ae3..fd8c4cb 100644
--- a/src/efsw/FileWatcherInotify.hpp
+++ b/src/efsw/FileWatcherInotify.hpp
@@ -83,6 +83,8 @@ class FileWatcherInotify : public FileWatcherImpl {
 
 	void checkForNewWatcher( Watcher* watch, std::string fpath );
 
+	void checkForNewSubWatchers( const std::string& dir );
+
 	Watcher* watcherContainsDirectory( std::string dir );
 };
 
-- 
2.43.0


From b848851b1e3c3b73e1780326077db3d5e4e0bc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:41 +0000
Subject: [PATCH 09/36] fix: keep a pending move when its directory is
 registered again

---
 src/efsw/FileWatcherInotify.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 0740d24..ace442d 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -138,14 +138,19 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 		}
 	}
 
+	std::string movedFrom;
+
 	// The watch could exists if a file was moved between directories that are being watched
 	// In that case we need to remove the local watch information but *keep* the inotify watch id
 	// open, to be reused with the new watch.
 	{
 		Lock lock( mWatchesLock );
 		auto watchIdExists = mWatches.find( wd );
-		if ( watchIdExists != mWatches.end() )
+		if ( watchIdExists != mWatches.end() ) {
+			if ( mCurrentMoveFrom == watchIdExists->second )
+				movedFrom = mCurrentMoveFrom->OldFileName;
 			removeWatchLocked( wd, true );
+		}
 	}
 
 	efDEBUG( "Added watch %s with id: %d\n", dir.c_str(), wd );
@@ -161,6 +166,12 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 	pWatch->DirInfo.Filepath = dir;
 	pWatch->syntheticEvents = syntheticEvents;
 
+	// Keep the move that is waiting for its destination
+	if ( !movedFrom.empty() ) {
+		pWatch->OldFileName = movedFrom;
+		mCurrentMoveFrom = pWatch;
+	}
+
 	{
 		Lock lock( mWatchesLock );
 		mWatches[wd] = pWatch;
-- 
2.43.0


From 73c21f30fe7a5b6cac8246665c364729a273c7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:04 +0000
Subject: [PATCH 10/36] fix: drop the internal watches of everything deleted,
 replaced or moved away, and leave no dangling parent

---
 src/efsw/FileWatcherInotify.cpp | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index ace442d..e401b36 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -242,6 +242,13 @@ void FileWatcherInotify::removeWatchLocked( WatchID watchid, bool skipInotifyRem
 	mWatchesRef.erase( watch->Directory );
 	mWatches.erase( iter );
 
+	/// The watches below it that remain (they are only kept when this isn't the root of the tree)
+	/// must not reference it anymore
+	for ( WatchMap::iterator it = mWatches.begin(); it != mWatches.end(); ++it ) {
+		if ( it->second->Parent == watch )
+			it->second->Parent = watch->Parent;
+	}
+
 	if ( NULL == watch->Parent ) {
 		WatchMap::iterator eraseit = mRealWatches.find( watch->InotifyID );
 
@@ -357,7 +364,11 @@ void FileWatcherInotify::run() {
 								curWatcher = wit->second;
 						}
 
-						if ( curWatcher ) {
+						if ( curWatcher && ( pevent->mask & IN_IGNORED ) && curWatcher->Parent ) {
+							// The directory doesn't exist anymore
+							Lock lock( mWatchesLock );
+							removeWatchLocked( pevent->wd, true );
+						} else if ( curWatcher ) {
 							handleAction( curWatcher, (char*)pevent->name, pevent->mask );
 
 							// Check if this is the destination of a move
@@ -555,7 +566,7 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 		}
 
 		/// The directory could have been already renamed again, its events will follow
-		if ( watch->Recursive && ( IN_ISDIR & action ) && !watch->OldFileName.empty() ) {
+		if ( ( IN_ISDIR & action ) && !watch->OldFileName.empty() ) {
 			/// Update the new directory path
 			std::string opath( watch->Directory + watch->OldFileName );
 			FileSystem::dirAddSlashAtEnd( opath );
@@ -591,16 +602,20 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 
 		FileSystem::dirAddSlashAtEnd( fpath );
 
-		/// If the file erased is a directory and recursive is enabled, removes the directory erased
-		if ( watch->Recursive ) {
+		/// If the file erased is a directory, removes the internal watches of the directory erased
+		/// and of everything below it
+		{
 			Lock l( mWatchesLock );
+			std::vector<WatchID> eraseWatches;
 
 			for ( WatchMap::iterator it = mWatches.begin(); it != mWatches.end(); ++it ) {
-				if ( it->second->Directory == fpath ) {
-					removeWatchLocked( it->second->InotifyID );
-					break;
-				}
+				if ( NULL != it->second->Parent &&
+					 -1 != String::strStartsWith( fpath, it->second->Directory ) )
+					eraseWatches.push_back( it->second->InotifyID );
 			}
+
+			for ( WatchID id : eraseWatches )
+				removeWatchLocked( id );
 		}
 	}
 	mIsTakingAction = false;
-- 
2.43.0


From 07cb5e60dd6d18130c9050d97620d284dbfd2bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:51 +0000
Subject: [PATCH 11/36] fix: report a move out of a directory which is
 registered again by another watch

---
 src/efsw/FileWatcherInotify.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index e401b36..260e7d6 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -147,8 +147,20 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 		Lock lock( mWatchesLock );
 		auto watchIdExists = mWatches.find( wd );
 		if ( watchIdExists != mWatches.end() ) {
-			if ( mCurrentMoveFrom == watchIdExists->second )
-				movedFrom = mCurrentMoveFrom->OldFileName;
+			WatcherInotify* oldWatch = watchIdExists->second;
+
+			if ( mCurrentMoveFrom == oldWatch ) {
+				movedFrom = oldWatch->OldFileName;
+
+				// It can't be the source of the move for another user watch
+				if ( parent && oldWatch->ID != parent->ID ) {
+					oldWatch->OldFileName = "";
+					mCurrentMoveFrom = NULL;
+					handleAction( oldWatch, movedFrom, IN_DELETE );
+					movedFrom.clear();
+				}
+			}
+
 			removeWatchLocked( wd, true );
 		}
 	}
-- 
2.43.0


From 11e820b3b1f0b1cfc80a13bcd99a486d9a49b046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:51 +0000
Subject: [PATCH 12/36] fix: always report the entry that was moved outside,
 whatever is watched below it

---
 src/efsw/FileWatcherInotify.cpp | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 260e7d6..df0fb1c 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -477,20 +477,21 @@ void FileWatcherInotify::handleMovedOutside() {
 						  return left->Directory < right->Directory;
 					  } );
 
-	if ( eraseWatches.empty() ) {
-		handleAction( watch, oldFileName, IN_DELETE );
-	} else {
-		for ( std::vector<Watcher*>::reverse_iterator eit = eraseWatches.rbegin();
-			  eit != eraseWatches.rend(); ++eit ) {
-			Watcher* rmWatch = *eit;
-
-			/// Create Delete event for removed watches that have been moved too
-			if ( Watcher* cntWatch = watcherContainsDirectory( rmWatch->Directory ) ) {
-				handleAction( cntWatch, FileSystem::fileNameFromPath( rmWatch->Directory ),
-							  IN_DELETE );
-			}
+	for ( std::vector<Watcher*>::reverse_iterator eit = eraseWatches.rbegin();
+		  eit != eraseWatches.rend(); ++eit ) {
+		Watcher* rmWatch = *eit;
+
+		if ( rmWatch->Directory == watch->Directory + oldFileName + "/" )
+			continue;
+
+		/// Create Delete event for removed watches that have been moved too
+		if ( Watcher* cntWatch = watcherContainsDirectory( rmWatch->Directory ) ) {
+			handleAction( cntWatch, FileSystem::fileNameFromPath( rmWatch->Directory ),
+						  IN_DELETE );
 		}
 	}
+
+	handleAction( watch, oldFileName, IN_DELETE );
 }
 
 void FileWatcherInotify::checkForNewWatcher( Watcher* watch, std::string fpath ) {
-- 
2.43.0


From 92b74e03952b0d73fd2467fefe9389e3ad37ff66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:18 +0000
Subject: [PATCH 13/36] fix: register a new entry as a directory only if it was
 created as one

---
 src/efsw/FileWatcherInotify.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index df0fb1c..ea50321 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -557,6 +557,9 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 
 	std::string fpath( watch->Directory + filename );
 
+	/// By now something else could be found under that path, and a link could be to a directory
+	bool mayBeDirectory = ( IN_ISDIR & action ) || mFileWatcher->followSymlinks();
+
 	if ( IN_Q_OVERFLOW & action ) {
 		watch->Listener->handleMissedFileActions( watch->ID, watch->Directory );
 	} else if ( ( IN_CLOSE_WRITE & action ) || ( IN_MODIFY & action ) ) {
@@ -572,7 +575,8 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 			watch->Listener->handleFileAction( watch->ID, watch->Directory, filename,
 											   Actions::Modified );
 
-			checkForNewWatcher( watch, fpath );
+			if ( mayBeDirectory )
+				checkForNewWatcher( watch, fpath );
 		} else {
 			watch->Listener->handleFileAction( watch->ID, watch->Directory, filename,
 											   Actions::Moved, watch->OldFileName );
@@ -607,7 +611,8 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 	} else if ( IN_CREATE & action ) {
 		watch->Listener->handleFileAction( watch->ID, watch->Directory, filename, Actions::Add );
 
-		checkForNewWatcher( watch, fpath );
+		if ( mayBeDirectory )
+			checkForNewWatcher( watch, fpath );
 	} else if ( IN_MOVED_FROM & action ) {
 		watch->OldFileName = filename;
 	} else if ( IN_DELETE & action ) {
-- 
2.43.0


From a6c9de8a510b8f91c9d494803c48cf9133fd7b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:51 +0000
Subject: [PATCH 14/36] fix: announce again what is in a directory renamed
 before it was watched

---
 src/efsw/FileWatcherInotify.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index ea50321..de3de70 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -590,9 +590,11 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 			FileSystem::dirAddSlashAtEnd( fpath );
 
 			Lock lock( mWatchesLock );
+			bool wasWatched = false;
 
 			for ( WatchMap::iterator it = mWatches.begin(); it != mWatches.end(); ++it ) {
 				if ( it->second->Directory == opath ) {
+					wasWatched = true;
 					it->second->Directory = fpath;
 					it->second->DirInfo.Filepath = fpath;
 				} else if ( -1 != String::strStartsWith( opath, it->second->Directory ) ) {
@@ -602,9 +604,14 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 			}
 
 			/// The directory, or any new subdirectory of it, could have been renamed before it was
-			/// possible to watch it
-			checkForNewWatcher( watch, fpath );
-			checkForNewSubWatchers( fpath );
+			/// possible to watch it under the path it had
+			if ( wasWatched ) {
+				checkForNewSubWatchers( fpath );
+			} else if ( watch->Recursive && FileSystem::isDirectory( fpath ) ) {
+				WatcherInotify* iWatch = static_cast<WatcherInotify*>( watch );
+				addWatch( fpath, watch->Listener, watch->Recursive, iWatch->syntheticEvents, iWatch,
+						  true );
+			}
 		}
 
 		watch->OldFileName = "";
-- 
2.43.0


From 595882b9998f3ca33aedf95601b39993eb2fb127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:32 +0000
Subject: [PATCH 15/36] fix: remove exactly the user watch that has the id or
 the path, under the lock of the user watches

---
 src/efsw/FileWatcherInotify.cpp | 22 +++++++++++++---------
 src/efsw/FileWatcherInotify.hpp |  2 --
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index de3de70..de2e2e3 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -187,7 +187,6 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 	{
 		Lock lock( mWatchesLock );
 		mWatches[wd] = pWatch;
-		mWatchesRef[pWatch->Directory] = wd;
 	}
 
 	if ( NULL == pWatch->Parent ) {
@@ -247,11 +246,10 @@ void FileWatcherInotify::removeWatchLocked( WatchID watchid, bool skipInotifyRem
 
 		for ( std::vector<WatchID>::iterator eit = eraseWatches.begin(); eit != eraseWatches.end();
 			  ++eit ) {
-			removeWatch( *eit );
+			removeWatchLocked( *eit );
 		}
 	}
 
-	mWatchesRef.erase( watch->Directory );
 	mWatches.erase( iter );
 
 	/// The watches below it that remain (they are only kept when this isn't the root of the tree)
@@ -262,6 +260,7 @@ void FileWatcherInotify::removeWatchLocked( WatchID watchid, bool skipInotifyRem
 	}
 
 	if ( NULL == watch->Parent ) {
+		Lock l( mRealWatchesLock );
 		WatchMap::iterator eraseit = mRealWatches.find( watch->InotifyID );
 
 		if ( eraseit != mRealWatches.end() ) {
@@ -292,11 +291,12 @@ void FileWatcherInotify::removeWatch( const std::string& directory ) {
 	std::string dir( directory );
 	FileSystem::dirAddSlashAtEnd( dir );
 
-	std::unordered_map<std::string, WatchID>::iterator ref = mWatchesRef.find( dir );
-	if ( ref == mWatchesRef.end() )
-		return;
-
-	removeWatchLocked( ref->second );
+	for ( WatchMap::iterator it = mRealWatches.begin(); it != mRealWatches.end(); ++it ) {
+		if ( it->second->Directory == dir ) {
+			removeWatchLocked( it->first );
+			return;
+		}
+	}
 }
 
 void FileWatcherInotify::removeWatch( WatchID watchid ) {
@@ -304,7 +304,11 @@ void FileWatcherInotify::removeWatch( WatchID watchid ) {
 		return;
 	Lock initLock( mInitLock );
 	Lock lock( mWatchesLock );
-	removeWatchLocked( watchid );
+	Lock l( mRealWatchesLock );
+
+	/// The watches of the subdirectories are internal
+	if ( mRealWatches.find( watchid ) != mRealWatches.end() )
+		removeWatchLocked( watchid );
 }
 
 void FileWatcherInotify::watch() {
diff --git a/src/efsw/FileWatcherInotify.hpp b/src/efsw/FileWatcherInotify.hpp
index fd8c4cb..553e2ec 100644
--- a/src/efsw/FileWatcherInotify.hpp
+++ b/src/efsw/FileWatcherInotify.hpp
@@ -50,8 +50,6 @@ class FileWatcherInotify : public FileWatcherImpl {
 	/// User added watches
 	WatchMap mRealWatches;
 
-	std::unordered_map<std::string, WatchID> mWatchesRef;
-
 	/// inotify file descriptor
 	int mFD;
 
-- 
2.43.0


From 109b744753aac2a0edddacc927e3b5bc5f578c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:14 +0000
Subject: [PATCH 16/36] fix: report nothing for a removed watch, neither from
 its own callbacks nor from events being processed

---
 src/efsw/FileWatcherInotify.cpp | 44 +++++++++++++++++++++------------
 src/efsw/FileWatcherInotify.hpp |  3 +++
 2 files changed, 31 insertions(+), 16 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index de2e2e3..b18ee7b 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -201,9 +201,8 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 			for ( const auto& file : files ) {
 				if ( file.second.isRegularFile() || file.second.isDirectory() ||
 					 file.second.isLink() ) {
-					pWatch->Listener->handleFileAction(
-						pWatch->ID, pWatch->Directory,
-						FileSystem::fileNameFromPath( file.second.Filepath ), Actions::Add );
+					notify( pWatch, FileSystem::fileNameFromPath( file.second.Filepath ),
+							Actions::Add );
 				}
 			}
 		}
@@ -211,7 +210,7 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 		std::map<std::string, FileInfo>::iterator it = files.begin();
 
 		for ( ; it != files.end(); ++it ) {
-			if ( !mInitOK )
+			if ( !mInitOK || pWatch->Listener != watcher )
 				break;
 
 			const FileInfo& cfi = it->second;
@@ -278,9 +277,20 @@ void FileWatcherInotify::removeWatchLocked( WatchID watchid, bool skipInotifyRem
 		}
 	}
 
+	/// Nothing else must be reported to its listener
+	watch->Listener = NULL;
+
 	mDeletedWatches.push_back( watch );
 }
 
+void FileWatcherInotify::notify( Watcher* watch, const std::string& filename, Action action,
+								 const std::string& oldFilename ) {
+	/// The listener could have removed the watch
+	if ( watch->Listener )
+		watch->Listener->handleFileAction( watch->ID, watch->Directory, filename, action,
+										   oldFilename );
+}
+
 void FileWatcherInotify::removeWatch( const std::string& directory ) {
 	if ( !mInitOK )
 		return;
@@ -361,6 +371,9 @@ void FileWatcherInotify::run() {
 					struct inotify_event* pevent = (struct inotify_event*)&buff[i];
 
 					{
+						// Removing a watch waits for the event being processed
+						Lock initLock( mInitLock );
+
 						// A move from is only completed by the very next event being its move to
 						if ( mCurrentMoveFrom && !( ( pevent->mask & IN_MOVED_TO ) &&
 													pevent->cookie == mCurrentMoveCookie ) )
@@ -426,10 +439,12 @@ void FileWatcherInotify::run() {
 		} else if ( 0 == ready ) {
 			// Here means no event received
 			// If last event is IN_MOVED_FROM, we assume no IN_MOVED_TO
+			Lock initLock( mInitLock );
 			handleMovedOutside();
 		}
 
 		{
+			Lock initLock( mInitLock );
 			Lock lock( mWatchesLock );
 			if ( !mDeletedWatches.empty() ) {
 				for ( auto w : mDeletedWatches ) {
@@ -502,7 +517,7 @@ void FileWatcherInotify::checkForNewWatcher( Watcher* watch, std::string fpath )
 	FileSystem::dirAddSlashAtEnd( fpath );
 
 	/// If the watcher is recursive, checks if the new file is a folder, and creates a watcher
-	if ( watch->Recursive && FileSystem::isDirectory( fpath ) ) {
+	if ( watch->Listener && watch->Recursive && FileSystem::isDirectory( fpath ) ) {
 		bool found = false;
 
 		{
@@ -567,23 +582,19 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 	if ( IN_Q_OVERFLOW & action ) {
 		watch->Listener->handleMissedFileActions( watch->ID, watch->Directory );
 	} else if ( ( IN_CLOSE_WRITE & action ) || ( IN_MODIFY & action ) ) {
-		watch->Listener->handleFileAction( watch->ID, watch->Directory, filename,
-										   Actions::Modified );
+		notify( watch, filename, Actions::Modified );
 	} else if ( IN_MOVED_TO & action ) {
 		/// If OldFileName doesn't exist means that the file has been moved from other folder, so we
 		/// just send the Add event
 		if ( watch->OldFileName.empty() ) {
-			watch->Listener->handleFileAction( watch->ID, watch->Directory, filename,
-											   Actions::Add );
+			notify( watch, filename, Actions::Add );
 
-			watch->Listener->handleFileAction( watch->ID, watch->Directory, filename,
-											   Actions::Modified );
+			notify( watch, filename, Actions::Modified );
 
 			if ( mayBeDirectory )
 				checkForNewWatcher( watch, fpath );
 		} else {
-			watch->Listener->handleFileAction( watch->ID, watch->Directory, filename,
-											   Actions::Moved, watch->OldFileName );
+			notify( watch, filename, Actions::Moved, watch->OldFileName );
 		}
 
 		/// The directory could have been already renamed again, its events will follow
@@ -611,7 +622,8 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 			/// possible to watch it under the path it had
 			if ( wasWatched ) {
 				checkForNewSubWatchers( fpath );
-			} else if ( watch->Recursive && FileSystem::isDirectory( fpath ) ) {
+			} else if ( watch->Listener && watch->Recursive &&
+						FileSystem::isDirectory( fpath ) ) {
 				WatcherInotify* iWatch = static_cast<WatcherInotify*>( watch );
 				addWatch( fpath, watch->Listener, watch->Recursive, iWatch->syntheticEvents, iWatch,
 						  true );
@@ -620,14 +632,14 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 
 		watch->OldFileName = "";
 	} else if ( IN_CREATE & action ) {
-		watch->Listener->handleFileAction( watch->ID, watch->Directory, filename, Actions::Add );
+		notify( watch, filename, Actions::Add );
 
 		if ( mayBeDirectory )
 			checkForNewWatcher( watch, fpath );
 	} else if ( IN_MOVED_FROM & action ) {
 		watch->OldFileName = filename;
 	} else if ( IN_DELETE & action ) {
-		watch->Listener->handleFileAction( watch->ID, watch->Directory, filename, Actions::Delete );
+		notify( watch, filename, Actions::Delete );
 
 		FileSystem::dirAddSlashAtEnd( fpath );
 
diff --git a/src/efsw/FileWatcherInotify.hpp b/src/efsw/FileWatcherInotify.hpp
index 553e2ec..ef19a79 100644
--- a/src/efsw/FileWatcherInotify.hpp
+++ b/src/efsw/FileWatcherInotify.hpp
@@ -73,6 +73,9 @@ class FileWatcherInotify : public FileWatcherImpl {
   private:
 	void run();
 
+	void notify( Watcher* watch, const std::string& filename, Action action,
+				 const std::string& oldFilename = "" );
+
 	void handleOverflow();
 
 	void handleMovedOutside();
-- 
2.43.0


From 26d10a71409bc09637848ccf3761c89ff0aa1ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:37 +0000
Subject: [PATCH 17/36] fix: wait for the thread of the inotify backend without
 holding any lock

---
 src/efsw/FileWatcherInotify.cpp | 13 ++-----------
 src/efsw/FileWatcherInotify.hpp |  1 -
 2 files changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index b18ee7b..4e9e34f 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -27,7 +27,6 @@ FileWatcherInotify::FileWatcherInotify( FileWatcher* parent ) :
 	FileWatcherImpl( parent ),
 	mFD( -1 ),
 	mThread( NULL ),
-	mIsTakingAction( false ),
 	mCurrentMoveFrom( NULL ),
 	mCurrentMoveCookie( 0 ) {
 	mFD = inotify_init();
@@ -41,17 +40,11 @@ FileWatcherInotify::FileWatcherInotify( FileWatcher* parent ) :
 
 FileWatcherInotify::~FileWatcherInotify() {
 	mInitOK = false;
-	// There is deadlock when release FileWatcherInotify instance since its handAction
-	// function is still running and hangs in requiring lock without init lock captured.
-	while ( mIsTakingAction ) {
-		// It'd use condition-wait instead of sleep. Actually efsw has no such
-		// implementation so we just skip and sleep while for that to avoid deadlock.
-		usleep( 1000 );
-	};
-	Lock initLock( mInitLock );
 
+	// The thread must be able to finish what it is doing, it can't be waited with any lock taken
 	efSAFE_DELETE( mThread );
 
+	Lock initLock( mInitLock );
 	Lock l( mWatchesLock );
 	Lock l2( mRealWatchesLock );
 
@@ -571,7 +564,6 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 	if ( !watch || !watch->Listener || !mInitOK ) {
 		return;
 	}
-	mIsTakingAction = true;
 	Lock initLock( mInitLock );
 
 	std::string fpath( watch->Directory + filename );
@@ -659,7 +651,6 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 				removeWatchLocked( id );
 		}
 	}
-	mIsTakingAction = false;
 }
 
 void FileWatcherInotify::handleOverflow() {
diff --git a/src/efsw/FileWatcherInotify.hpp b/src/efsw/FileWatcherInotify.hpp
index ef19a79..f6855e2 100644
--- a/src/efsw/FileWatcherInotify.hpp
+++ b/src/efsw/FileWatcherInotify.hpp
@@ -58,7 +58,6 @@ class FileWatcherInotify : public FileWatcherImpl {
 	Mutex mWatchesLock;
 	Mutex mRealWatchesLock;
 	Mutex mInitLock;
-	bool mIsTakingAction;
 	/// Watch of the last event, when it was a move from still waiting for its move to
 	WatcherInotify* mCurrentMoveFrom;
 	uint32_t mCurrentMoveCookie;
-- 
2.43.0


From 82a30b2a97b17c19b746267f938015b4d3a56a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:24 +0000
Subject: [PATCH 18/36] fix: report the move out of a directory which another
 user watch took over

---
 src/efsw/FileWatcherInotify.cpp | 47 ++++++++++++++++++---------------
 src/efsw/FileWatcherInotify.hpp |  2 ++
 2 files changed, 27 insertions(+), 22 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 4e9e34f..2acf667 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -142,18 +142,10 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 		if ( watchIdExists != mWatches.end() ) {
 			WatcherInotify* oldWatch = watchIdExists->second;
 
-			if ( mCurrentMoveFrom == oldWatch ) {
+			// It can't be the source of the move for another user watch
+			if ( mCurrentMoveFrom == oldWatch && parent && oldWatch->ID == parent->ID )
 				movedFrom = oldWatch->OldFileName;
 
-				// It can't be the source of the move for another user watch
-				if ( parent && oldWatch->ID != parent->ID ) {
-					oldWatch->OldFileName = "";
-					mCurrentMoveFrom = NULL;
-					handleAction( oldWatch, movedFrom, IN_DELETE );
-					movedFrom.clear();
-				}
-			}
-
 			removeWatchLocked( wd, true );
 		}
 	}
@@ -386,6 +378,15 @@ void FileWatcherInotify::run() {
 								curWatcher = wit->second;
 						}
 
+						WatchID moveFromID = 0;
+						std::string moveFromDir, moveFromName;
+
+						if ( mCurrentMoveFrom && mCurrentMoveFrom != curWatcher ) {
+							moveFromID = mCurrentMoveFrom->ID;
+							moveFromDir = mCurrentMoveFrom->Directory;
+							moveFromName = mCurrentMoveFrom->OldFileName;
+						}
+
 						if ( curWatcher && ( pevent->mask & IN_IGNORED ) && curWatcher->Parent ) {
 							// The directory doesn't exist anymore
 							Lock lock( mWatchesLock );
@@ -414,6 +415,13 @@ void FileWatcherInotify::run() {
 
 								/// Pair processed successfully
 								mCurrentMoveFrom = NULL;
+							} else if ( !moveFromName.empty() ) {
+								// The source is now registered for another user watch
+								WatcherInotify* moveFromWatch = findRealWatch( moveFromID );
+
+								if ( moveFromWatch )
+									moveFromWatch->Listener->handleFileAction(
+										moveFromID, moveFromDir, moveFromName, Actions::Delete );
 							} else if ( pevent->mask & IN_MOVED_FROM ) {
 								/// Keep track of the IN_MOVED_FROM events to know
 								/// if the IN_MOVED_TO event is also fired
@@ -665,19 +673,14 @@ void FileWatcherInotify::handleOverflow() {
 			ids.push_back( it->first );
 	}
 
-	for ( WatchID id : ids ) {
-		WatcherInotify* watch = NULL;
-
-		{
-			Lock l( mRealWatchesLock );
-			WatchMap::iterator it = mRealWatches.find( id );
-			if ( it != mRealWatches.end() )
-				watch = it->second;
-		}
+	for ( WatchID id : ids )
+		handleAction( findRealWatch( id ), "", IN_Q_OVERFLOW );
+}
 
-		if ( watch )
-			handleAction( watch, "", IN_Q_OVERFLOW );
-	}
+WatcherInotify* FileWatcherInotify::findRealWatch( WatchID watchid ) {
+	Lock l( mRealWatchesLock );
+	WatchMap::iterator it = mRealWatches.find( watchid );
+	return it != mRealWatches.end() ? it->second : NULL;
 }
 
 std::vector<std::string> FileWatcherInotify::directories() {
diff --git a/src/efsw/FileWatcherInotify.hpp b/src/efsw/FileWatcherInotify.hpp
index f6855e2..7eea894 100644
--- a/src/efsw/FileWatcherInotify.hpp
+++ b/src/efsw/FileWatcherInotify.hpp
@@ -75,6 +75,8 @@ class FileWatcherInotify : public FileWatcherImpl {
 	void notify( Watcher* watch, const std::string& filename, Action action,
 				 const std::string& oldFilename = "" );
 
+	WatcherInotify* findRealWatch( WatchID watchid );
+
 	void handleOverflow();
 
 	void handleMovedOutside();
-- 
2.43.0


From 572ceca2863e2c99e71cddca2c3d943eb1ad89ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:44 +0000
Subject: [PATCH 19/36] fix: polling: detect the entries deleted within the
 second in which the directory was last changed

---
 src/efsw/DirectorySnapshot.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/efsw/DirectorySnapshot.cpp b/src/efsw/DirectorySnapshot.cpp
index f78475f..d03d484 100644
--- a/src/efsw/DirectorySnapshot.cpp
+++ b/src/efsw/DirectorySnapshot.cpp
@@ -81,8 +81,15 @@ DirectorySnapshotDiff DirectorySnapshot::scan() {
 
 	FileInfoMap files = FileSystem::filesInfoFromPath( DirectoryInfo.Filepath );
 
-	if ( files.empty() && Files.empty() ) {
-		return Diff;
+	if ( files.empty() ) {
+		/// If any of the files still exists it wasn't possible to list the directory
+		for ( FileInfoMap::iterator fit = Files.begin(); fit != Files.end(); fit++ ) {
+			std::string path( DirectoryInfo.Filepath );
+			FileSystem::dirAddSlashAtEnd( path );
+
+			if ( FileInfo::exists( path + fit->first ) )
+				return Diff;
+		}
 	}
 
 	FileInfo fi;
@@ -90,9 +97,8 @@ DirectorySnapshotDiff DirectorySnapshot::scan() {
 	FileInfoMap::iterator it;
 	FileInfoMap::iterator fiIt;
 
-	if ( Diff.DirChanged ) {
-		FilesCpy = Files;
-	}
+	/// The directory could look unchanged: its modification time has a resolution of one second
+	FilesCpy = Files;
 
 	for ( it = files.begin(); it != files.end(); it++ ) {
 		fi = it->second;
@@ -150,10 +156,6 @@ DirectorySnapshotDiff DirectorySnapshot::scan() {
 		}
 	}
 
-	if ( !Diff.DirChanged ) {
-		return Diff;
-	}
-
 	/// The files or directories that remains were deleted
 	for ( it = FilesCpy.begin(); it != FilesCpy.end(); it++ ) {
 		fi = it->second;
-- 
2.43.0


From 2fb09c02d2215062792551fec10050a786035c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:44 +0000
Subject: [PATCH 20/36] fix: polling: an entry is only moved if it isn't
 anymore under its old name

---
 src/efsw/DirectorySnapshot.cpp | 14 +++++++++++---
 src/efsw/DirectorySnapshot.hpp |  2 +-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/efsw/DirectorySnapshot.cpp b/src/efsw/DirectorySnapshot.cpp
index d03d484..5bf880b 100644
--- a/src/efsw/DirectorySnapshot.cpp
+++ b/src/efsw/DirectorySnapshot.cpp
@@ -132,7 +132,7 @@ DirectorySnapshotDiff DirectorySnapshot::scan() {
 			std::string oldFile = "";
 
 			/// Check if the same inode already existed
-			if ( ( fit = nodeInFiles( fi ) ) != Files.end() ) {
+			if ( ( fit = nodeInFiles( fi, files ) ) != Files.end() ) {
 				oldFile = fit->first;
 
 				/// Avoid firing a Delete event
@@ -173,12 +173,20 @@ DirectorySnapshotDiff DirectorySnapshot::scan() {
 	return Diff;
 }
 
-FileInfoMap::iterator DirectorySnapshot::nodeInFiles( FileInfo& fi ) {
+FileInfoMap::iterator DirectorySnapshot::nodeInFiles( FileInfo& fi, FileInfoMap& curFiles ) {
 	FileInfoMap::iterator it;
 
 	if ( FileInfo::inodeSupported() ) {
 		for ( it = Files.begin(); it != Files.end(); it++ ) {
-			if ( it->second.sameInode( fi ) && it->second.Filepath != fi.Filepath ) {
+			if ( !it->second.sameInode( fi ) || it->second.isDirectory() != fi.isDirectory() )
+				continue;
+
+			/// It didn't move if it's still there (a hard link, or a link to it)
+			FileInfoMap::iterator cur = curFiles.find( it->first );
+
+			if ( cur == curFiles.end() ||
+				 ( !cur->second.sameInode( fi ) &&
+				   cur->second.isDirectory() == fi.isDirectory() ) ) {
 				return it;
 			}
 		}
diff --git a/src/efsw/DirectorySnapshot.hpp b/src/efsw/DirectorySnapshot.hpp
index 0e60542..9f0c6cb 100644
--- a/src/efsw/DirectorySnapshot.hpp
+++ b/src/efsw/DirectorySnapshot.hpp
@@ -24,7 +24,7 @@ class DirectorySnapshot {
 
 	DirectorySnapshotDiff scan();
 
-	FileInfoMap::iterator nodeInFiles( FileInfo& fi );
+	FileInfoMap::iterator nodeInFiles( FileInfo& fi, FileInfoMap& curFiles );
 
 	void addFile( std::string path );
 
-- 
2.43.0


From 68673243a4f398c04463f2a63c7bb7f124f7ca49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:44 +0000
Subject: [PATCH 21/36] fix: polling: report names reused by another entry, or
 by one of another type, in an order that can be followed

---
 src/efsw/DirWatcherGeneric.cpp | 37 +++++++++++++++++-----------------
 src/efsw/DirectorySnapshot.cpp | 24 ++++++++++++++++++++--
 2 files changed, 41 insertions(+), 20 deletions(-)

diff --git a/src/efsw/DirWatcherGeneric.cpp b/src/efsw/DirWatcherGeneric.cpp
index fee82ea..f2fa6c0 100644
--- a/src/efsw/DirWatcherGeneric.cpp
+++ b/src/efsw/DirWatcherGeneric.cpp
@@ -152,40 +152,41 @@ void DirWatcherGeneric::watch( bool reportOwnChange ) {
 		FileInfoList::iterator it;
 		MovedList::iterator mit;
 
-		/// Files
-		DiffIterator( FilesCreated ) {
-			handleAction( ( *it ).Filepath, Actions::Add );
-		}
-
-		DiffIterator( FilesModified ) {
-			handleAction( ( *it ).Filepath, Actions::Modified );
+		/// What disappeared and what moved leave their names to what appeared
+		DiffIterator( FilesDeleted ) {
+			handleAction( ( *it ).Filepath, Actions::Delete );
 		}
 
-		DiffIterator( FilesDeleted ) {
+		DiffIterator( DirsDeleted ) {
 			handleAction( ( *it ).Filepath, Actions::Delete );
+			removeDirectory( ( *it ).Filepath );
 		}
 
 		DiffMovedIterator( FilesMoved ) {
 			handleAction( ( *mit ).second.Filepath, Actions::Moved, ( *mit ).first );
 		}
 
-		/// Directories
-		DiffIterator( DirsCreated ) {
-			createDirectory( ( *it ).Filepath );
+		DiffMovedIterator( DirsMoved ) {
+			handleAction( ( *mit ).second.Filepath, Actions::Moved, ( *mit ).first );
+			moveDirectory( ( *mit ).first, ( *mit ).second.Filepath );
 		}
 
-		DiffIterator( DirsModified ) {
+		/// Files
+		DiffIterator( FilesCreated ) {
+			handleAction( ( *it ).Filepath, Actions::Add );
+		}
+
+		DiffIterator( FilesModified ) {
 			handleAction( ( *it ).Filepath, Actions::Modified );
 		}
 
-		DiffIterator( DirsDeleted ) {
-			handleAction( ( *it ).Filepath, Actions::Delete );
-			removeDirectory( ( *it ).Filepath );
+		/// Directories
+		DiffIterator( DirsCreated ) {
+			createDirectory( ( *it ).Filepath );
 		}
 
-		DiffMovedIterator( DirsMoved ) {
-			handleAction( ( *mit ).second.Filepath, Actions::Moved, ( *mit ).first );
-			moveDirectory( ( *mit ).first, ( *mit ).second.Filepath );
+		DiffIterator( DirsModified ) {
+			handleAction( ( *it ).Filepath, Actions::Modified );
 		}
 	}
 
diff --git a/src/efsw/DirectorySnapshot.cpp b/src/efsw/DirectorySnapshot.cpp
index 5bf880b..532d89a 100644
--- a/src/efsw/DirectorySnapshot.cpp
+++ b/src/efsw/DirectorySnapshot.cpp
@@ -92,6 +92,14 @@ DirectorySnapshotDiff DirectorySnapshot::scan() {
 		}
 	}
 
+	/// Only regular files and directories are of interest
+	for ( FileInfoMap::iterator fit = files.begin(); fit != files.end(); ) {
+		if ( fit->second.isRegularFile() || fit->second.isDirectory() )
+			++fit;
+		else
+			files.erase( fit++ );
+	}
+
 	FileInfo fi;
 	FileInfoMap FilesCpy;
 	FileInfoMap::iterator it;
@@ -106,6 +114,19 @@ DirectorySnapshotDiff DirectorySnapshot::scan() {
 		/// File existed before?
 		fiIt = Files.find( it->first );
 
+		/// Replaced by an entry of another type?
+		if ( fiIt != Files.end() && fiIt->second.isDirectory() != fi.isDirectory() ) {
+			if ( fi.isDirectory() ) {
+				Diff.FilesDeleted.push_back( fiIt->second );
+			} else {
+				Diff.DirsDeleted.push_back( fiIt->second );
+			}
+
+			FilesCpy.erase( it->first );
+			Files.erase( fiIt );
+			fiIt = Files.end();
+		}
+
 		if ( fiIt != Files.end() ) {
 			/// Erase from the file list copy
 			FilesCpy.erase( it->first );
@@ -123,8 +144,7 @@ DirectorySnapshotDiff DirectorySnapshot::scan() {
 				}
 			}
 		}
-		/// Only add regular files or directories
-		else if ( fi.isRegularFile() || fi.isDirectory() ) {
+		else {
 			/// New file found
 			Files[it->first] = fi;
 
-- 
2.43.0


From 9486417906e0bb7693eaf6b8b7f648a5b6d9cf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:03 +0000
Subject: [PATCH 22/36] fix: polling: report everything that is in a new
 directory, and new directories that aren't descended into

---
 src/efsw/DirWatcherGeneric.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/efsw/DirWatcherGeneric.cpp b/src/efsw/DirWatcherGeneric.cpp
index f2fa6c0..c348dfb 100644
--- a/src/efsw/DirWatcherGeneric.cpp
+++ b/src/efsw/DirWatcherGeneric.cpp
@@ -22,6 +22,10 @@ DirWatcherGeneric::DirWatcherGeneric( DirWatcherGeneric* parent, WatcherGeneric*
 			DiffIterator( FilesCreated ) {
 				handleAction( ( *it ).Filepath, Actions::Add );
 			}
+
+			DiffIterator( DirsCreated ) {
+				handleAction( ( *it ).Filepath, Actions::Add );
+			}
 		}
 	}
 }
@@ -126,10 +130,6 @@ void DirWatcherGeneric::addChildren( bool reportNewFiles ) {
 					}
 				}
 
-				if ( reportNewFiles ) {
-					handleAction( dir, Actions::Add );
-				}
-
 				Directories[dir] =
 					new DirWatcherGeneric( this, Watch, dir, Recursive, reportNewFiles );
 
@@ -278,6 +278,8 @@ DirWatcherGeneric* DirWatcherGeneric::createDirectory( std::string newdir ) {
 
 	FileSystem::dirAddSlashAtEnd( dir );
 
+	handleAction( newdir, Actions::Add );
+
 	FileInfo fi( dir );
 
 	if ( !fi.isDirectory() || !fi.isReadable() || FileSystem::isRemoteFS( dir ) ) {
@@ -309,10 +311,8 @@ DirWatcherGeneric* DirWatcherGeneric::createDirectory( std::string newdir ) {
 	}
 
 	if ( !skip ) {
-		handleAction( newdir, Actions::Add );
-
-		/// Creates the new directory watcher of the subfolder and check for new files
-		dw = new DirWatcherGeneric( this, Watch, dir, Recursive );
+		/// Creates the new directory watcher of the subfolder and reports the files found in it
+		dw = new DirWatcherGeneric( this, Watch, dir, Recursive, true );
 
 		dw->addChildren();
 
-- 
2.43.0


From 6253fb52fab1e4ebe334ef7840e5fd5d2bb10504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:03 +0000
Subject: [PATCH 23/36] fix: polling: don't report what happens below the
 entries of a non-recursive watch

---
 src/efsw/DirWatcherGeneric.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/efsw/DirWatcherGeneric.cpp b/src/efsw/DirWatcherGeneric.cpp
index c348dfb..fea8378 100644
--- a/src/efsw/DirWatcherGeneric.cpp
+++ b/src/efsw/DirWatcherGeneric.cpp
@@ -282,7 +282,8 @@ DirWatcherGeneric* DirWatcherGeneric::createDirectory( std::string newdir ) {
 
 	FileInfo fi( dir );
 
-	if ( !fi.isDirectory() || !fi.isReadable() || FileSystem::isRemoteFS( dir ) ) {
+	/// What is inside of it is only of interest for recursive watches
+	if ( !Recursive || !fi.isDirectory() || !fi.isReadable() || FileSystem::isRemoteFS( dir ) ) {
 		return NULL;
 	}
 
-- 
2.43.0


From cd87b2c00d7dca4094acfd9aa2042775293e0ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:36 +0000
Subject: [PATCH 24/36] fix: polling: report the deletion of the contents of a
 directory replaced by something else

---
 src/efsw/DirWatcherGeneric.cpp | 20 ++++++++++----------
 src/efsw/DirectorySnapshot.hpp |  4 ++--
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/efsw/DirWatcherGeneric.cpp b/src/efsw/DirWatcherGeneric.cpp
index fea8378..d723aa4 100644
--- a/src/efsw/DirWatcherGeneric.cpp
+++ b/src/efsw/DirWatcherGeneric.cpp
@@ -31,20 +31,20 @@ DirWatcherGeneric::DirWatcherGeneric( DirWatcherGeneric* parent, WatcherGeneric*
 }
 
 DirWatcherGeneric::~DirWatcherGeneric() {
-	/// If the directory was deleted mark the files as deleted
+	/// If the directory was deleted report the deletion of everything known to be in it
 	if ( Deleted ) {
-		DirectorySnapshotDiff Diff = DirSnap.scan();
+		/// (by now something else could be found under its path)
+		DirectorySnapshotDiff Diff;
+		FileInfoList::iterator it;
 
-		if ( !DirSnap.exists() ) {
-			FileInfoList::iterator it;
+		DirSnap.deleteAll( Diff );
 
-			DiffIterator( FilesDeleted ) {
-				handleAction( ( *it ).Filepath, Actions::Delete );
-			}
+		DiffIterator( FilesDeleted ) {
+			handleAction( ( *it ).Filepath, Actions::Delete );
+		}
 
-			DiffIterator( DirsDeleted ) {
-				handleAction( ( *it ).Filepath, Actions::Delete );
-			}
+		DiffIterator( DirsDeleted ) {
+			handleAction( ( *it ).Filepath, Actions::Delete );
 		}
 	}
 
diff --git a/src/efsw/DirectorySnapshot.hpp b/src/efsw/DirectorySnapshot.hpp
index 9f0c6cb..5fc08b4 100644
--- a/src/efsw/DirectorySnapshot.hpp
+++ b/src/efsw/DirectorySnapshot.hpp
@@ -34,10 +34,10 @@ class DirectorySnapshot {
 
 	void updateFile( std::string path );
 
+	void deleteAll( DirectorySnapshotDiff& Diff );
+
   protected:
 	void initFiles();
-
-	void deleteAll( DirectorySnapshotDiff& Diff );
 };
 
 } // namespace efsw
-- 
2.43.0


From b69145f6af69069638b074f4e2a865b3cbe70916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:36 +0000
Subject: [PATCH 25/36] fix: polling: keep track of the directories entered
 through symbolic links by the name of the link

---
 src/efsw/DirWatcherGeneric.cpp | 188 +++++++++++++++++++--------------
 src/efsw/DirWatcherGeneric.hpp |  14 ++-
 2 files changed, 122 insertions(+), 80 deletions(-)

diff --git a/src/efsw/DirWatcherGeneric.cpp b/src/efsw/DirWatcherGeneric.cpp
index d723aa4..7761a8a 100644
--- a/src/efsw/DirWatcherGeneric.cpp
+++ b/src/efsw/DirWatcherGeneric.cpp
@@ -8,7 +8,7 @@ namespace efsw {
 DirWatcherGeneric::DirWatcherGeneric( DirWatcherGeneric* parent, WatcherGeneric* ws,
 									  const std::string& directory, bool recursive,
 									  bool reportNewFiles ) :
-	Parent( parent ), Watch( ws ), Recursive( recursive ), Deleted( false ) {
+	Parent( parent ), Watch( ws ), Recursive( recursive ), IsLink( false ), Deleted( false ) {
 	resetDirectory( directory );
 
 	if ( !reportNewFiles ) {
@@ -53,7 +53,7 @@ DirWatcherGeneric::~DirWatcherGeneric() {
 	for ( ; it != Directories.end(); ++it ) {
 		if ( Deleted ) {
 			/// If the directory was deleted, mark the flag for file deletion
-			it->second->Deleted = true;
+			it->second->Deleted = !it->second->IsLink || !it->second->DirSnap.exists();
 		}
 
 		efSAFE_DELETE( it->second );
@@ -84,7 +84,8 @@ void DirWatcherGeneric::resetDirectory( std::string directory ) {
 	DirSnap.setDirectoryInfo( dir );
 
 	for ( auto& child : Directories ) {
-		child.second->resetDirectory( child.first );
+		if ( !child.second->IsLink )
+			child.second->resetDirectory( child.first );
 	}
 }
 
@@ -95,45 +96,86 @@ void DirWatcherGeneric::handleAction( const std::string& filename, unsigned long
 									   oldFilename );
 }
 
+bool DirWatcherGeneric::resolveDirectory( const std::string& name, std::string& dir, bool& isLink ) {
+	dir = DirSnap.DirectoryInfo.Filepath;
+	FileSystem::dirAddSlashAtEnd( dir );
+	dir += name;
+	FileSystem::dirAddSlashAtEnd( dir );
+
+	FileInfo fi( dir );
+
+	if ( !Recursive || !fi.isDirectory() || !fi.isReadable() || FileSystem::isRemoteFS( dir ) )
+		return false;
+
+	/// Check if the directory is a symbolic link
+	std::string curPath;
+	std::string link( FileSystem::getLinkRealPath( dir, curPath ) );
+
+	isLink = "" != link;
+
+	if ( isLink ) {
+		/// Avoid adding symlinks directories if it's not enabled, or if the path is outside the
+		/// current dir
+		if ( !Watch->WatcherImpl->mFileWatcher->followSymlinks() ||
+			 !Watch->WatcherImpl->linkAllowed( curPath, link ) ) {
+			return false;
+		}
+
+		dir = link;
+	}
+
+	return true;
+}
+
+DirWatcherGeneric* DirWatcherGeneric::addDirectory( const std::string& name, const std::string& dir,
+													bool isLink, bool reportNewFiles ) {
+	/// Nothing is watched twice. If it's a symlink its real path could exist as another watcher
+	if ( Watch->pathInWatches( dir ) ||
+		 ( isLink && Watch->WatcherImpl->pathInWatches( dir ) ) ) {
+		return NULL;
+	}
+
+	DirWatcherGeneric* dw = new DirWatcherGeneric( this, Watch, dir, Recursive, reportNewFiles );
+
+	dw->IsLink = isLink;
+
+	/// Must be in the list of directories before its children are added: a link in it could lead
+	/// back to it
+	Directories[name] = dw;
+
+	return dw;
+}
+
 void DirWatcherGeneric::addChildren( bool reportNewFiles ) {
+	/// The links are added last: what they lead to must be already watched if it's in the tree
+	addChildren( reportNewFiles, false );
+	addChildren( reportNewFiles, true );
+}
+
+void DirWatcherGeneric::addChildren( bool reportNewFiles, bool links ) {
 	if ( Recursive ) {
 		/// Create the subdirectories watchers
 		std::string dir;
+		bool isLink = false;
 
 		for ( FileInfoMap::iterator it = DirSnap.Files.begin(); it != DirSnap.Files.end(); it++ ) {
-			if ( it->second.isDirectory() && it->second.isReadable() &&
-				 !FileSystem::isRemoteFS( it->second.Filepath ) ) {
-				/// Check if the directory is a symbolic link
-				std::string curPath;
-				std::string link( FileSystem::getLinkRealPath( it->second.Filepath, curPath ) );
-
-				dir = it->first;
-
-				if ( "" != link ) {
-					/// Avoid adding symlinks directories if it's now enabled
-					if ( !Watch->WatcherImpl->mFileWatcher->followSymlinks() ) {
-						continue;
-					}
-
-					/// If it's a symlink check if the realpath exists as a watcher, or
-					/// if the path is outside the current dir
-					if ( Watch->WatcherImpl->pathInWatches( link ) ||
-						 Watch->pathInWatches( link ) ||
-						 !Watch->WatcherImpl->linkAllowed( curPath, link ) ) {
-						continue;
-					} else {
-						dir = link;
-					}
-				} else {
-					if ( Watch->pathInWatches( dir ) || Watch->WatcherImpl->pathInWatches( dir ) ) {
-						continue;
-					}
+			if ( !it->second.isDirectory() || !resolveDirectory( it->first, dir, isLink ) )
+				continue;
+
+			DirWatchMap::iterator dit = Directories.find( it->first );
+
+			if ( dit != Directories.end() ) {
+				if ( links && !dit->second->IsLink )
+					dit->second->addChildren( reportNewFiles, links );
+			} else if ( isLink == links ) {
+				DirWatcherGeneric* dw = addDirectory( it->first, dir, isLink, reportNewFiles );
+
+				if ( NULL != dw ) {
+					if ( links )
+						dw->addChildren( reportNewFiles );
+					else
+						dw->addChildren( reportNewFiles, links );
 				}
-
-				Directories[dir] =
-					new DirWatcherGeneric( this, Watch, dir, Recursive, reportNewFiles );
-
-				Directories[dir]->addChildren( reportNewFiles );
 			}
 		}
 	}
@@ -186,7 +228,7 @@ void DirWatcherGeneric::watch( bool reportOwnChange ) {
 		}
 
 		DiffIterator( DirsModified ) {
-			handleAction( ( *it ).Filepath, Actions::Modified );
+			updateDirectory( ( *it ).Filepath );
 		}
 	}
 
@@ -265,65 +307,52 @@ DirWatcherGeneric* DirWatcherGeneric::findDirWatcher( std::string dir ) {
 	return NULL;
 }
 
-DirWatcherGeneric* DirWatcherGeneric::createDirectory( std::string newdir ) {
+void DirWatcherGeneric::createDirectory( std::string newdir ) {
 	FileSystem::dirRemoveSlashAtEnd( newdir );
 	newdir = FileSystem::fileNameFromPath( newdir );
 
-	DirWatcherGeneric* dw = NULL;
+	handleAction( newdir, Actions::Add );
 
-	/// Check if the directory is a symbolic link
-	std::string parentPath( DirSnap.DirectoryInfo.Filepath );
-	FileSystem::dirAddSlashAtEnd( parentPath );
-	std::string dir( parentPath + newdir );
+	watchDirectory( newdir );
+}
 
-	FileSystem::dirAddSlashAtEnd( dir );
+void DirWatcherGeneric::updateDirectory( std::string dir ) {
+	FileSystem::dirRemoveSlashAtEnd( dir );
+	dir = FileSystem::fileNameFromPath( dir );
 
-	handleAction( newdir, Actions::Add );
+	handleAction( dir, Actions::Modified );
 
-	FileInfo fi( dir );
+	/// It could lead now to somewhere else, if it is or was a symbolic link
+	std::string path;
+	bool isLink = false;
+	DirWatchMap::iterator dit = Directories.find( dir );
 
-	/// What is inside of it is only of interest for recursive watches
-	if ( !Recursive || !fi.isDirectory() || !fi.isReadable() || FileSystem::isRemoteFS( dir ) ) {
-		return NULL;
+	if ( dit != Directories.end() ) {
+		if ( resolveDirectory( dir, path, isLink ) &&
+			 path == dit->second->DirSnap.DirectoryInfo.Filepath )
+			return;
+
+		removeDirectory( dir );
 	}
 
-	std::string curPath;
-	std::string link( FileSystem::getLinkRealPath( dir, curPath ) );
-	bool skip = false;
+	watchDirectory( dir );
+}
 
-	if ( "" != link ) {
-		/// Avoid adding symlinks directories if it's now enabled
-		if ( !Watch->WatcherImpl->mFileWatcher->followSymlinks() ) {
-			skip = true;
-		}
+void DirWatcherGeneric::watchDirectory( const std::string& name ) {
+	std::string dir;
+	bool isLink = false;
 
-		/// If it's a symlink check if the realpath exists as a watcher, or
-		/// if the path is outside the current dir
-		if ( Watch->WatcherImpl->pathInWatches( link ) || Watch->pathInWatches( link ) ||
-			 !Watch->WatcherImpl->linkAllowed( curPath, link ) ) {
-			skip = true;
-		} else {
-			dir = link;
-		}
-	} else {
-		if ( Watch->pathInWatches( dir ) || Watch->WatcherImpl->pathInWatches( dir ) ) {
-			skip = true;
-		}
-	}
+	if ( !resolveDirectory( name, dir, isLink ) )
+		return;
 
-	if ( !skip ) {
-		/// Creates the new directory watcher of the subfolder and reports the files found in it
-		dw = new DirWatcherGeneric( this, Watch, dir, Recursive, true );
+	/// Creates the new directory watcher of the subfolder and reports the files found in it
+	DirWatcherGeneric* dw = addDirectory( name, dir, isLink, true );
 
+	if ( NULL != dw ) {
 		dw->addChildren();
 
 		dw->watch();
-
-		/// Add it to the list of directories
-		Directories[newdir] = dw;
 	}
-
-	return dw;
 }
 
 void DirWatcherGeneric::removeDirectory( std::string dir ) {
@@ -342,7 +371,7 @@ void DirWatcherGeneric::removeDirectory( std::string dir ) {
 		dw = dit->second;
 
 		/// Flag it as deleted so it fire the event for every file inside deleted
-		dw->Deleted = true;
+		dw->Deleted = !dw->IsLink || !dw->DirSnap.exists();
 
 		/// Delete the DirWatcherGeneric
 		efSAFE_DELETE( dw );
@@ -373,7 +402,8 @@ void DirWatcherGeneric::moveDirectory( std::string oldDir, std::string newDir )
 
 		Directories[newDir] = dw;
 
-		dw->resetDirectory( newDir );
+		if ( !dw->IsLink )
+			dw->resetDirectory( newDir );
 	}
 }
 
diff --git a/src/efsw/DirWatcherGeneric.hpp b/src/efsw/DirWatcherGeneric.hpp
index c1f7135..af2b1c5 100644
--- a/src/efsw/DirWatcherGeneric.hpp
+++ b/src/efsw/DirWatcherGeneric.hpp
@@ -17,6 +17,7 @@ class DirWatcherGeneric {
 	DirectorySnapshot DirSnap;
 	DirWatchMap Directories;
 	bool Recursive;
+	bool IsLink;
 
 	DirWatcherGeneric( DirWatcherGeneric* parent, WatcherGeneric* ws, const std::string& directory,
 					   bool recursive, bool reportNewFiles = false );
@@ -40,7 +41,18 @@ class DirWatcherGeneric {
   protected:
 	bool Deleted;
 
-	DirWatcherGeneric* createDirectory( std::string newdir );
+	bool resolveDirectory( const std::string& name, std::string& dir, bool& isLink );
+
+	DirWatcherGeneric* addDirectory( const std::string& name, const std::string& dir, bool isLink,
+									 bool reportNewFiles );
+
+	void addChildren( bool reportNewFiles, bool links );
+
+	void createDirectory( std::string newdir );
+
+	void updateDirectory( std::string dir );
+
+	void watchDirectory( const std::string& name );
 
 	void removeDirectory( std::string dir );
 
-- 
2.43.0


From 1cdcb0277f07956342765542801ff2749f1da69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:50 +0000
Subject: [PATCH 26/36] fix: don't use what stat and statfs left uninitialized
 when they fail

---
 src/efsw/FileInfo.cpp                      | 4 +++-
 src/efsw/platform/posix/FileSystemImpl.cpp | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/efsw/FileInfo.cpp b/src/efsw/FileInfo.cpp
index 4dcbd7d..2600ddf 100644
--- a/src/efsw/FileInfo.cpp
+++ b/src/efsw/FileInfo.cpp
@@ -56,11 +56,12 @@ bool FileInfo::inodeSupported() {
 }
 
 FileInfo::FileInfo() :
-	ModificationTime( 0 ), OwnerId( 0 ), GroupId( 0 ), Permissions( 0 ), Inode( 0 ) {}
+	ModificationTime( 0 ), Size( 0 ), OwnerId( 0 ), GroupId( 0 ), Permissions( 0 ), Inode( 0 ) {}
 
 FileInfo::FileInfo( const std::string& filepath ) :
 	Filepath( filepath ),
 	ModificationTime( 0 ),
+	Size( 0 ),
 	OwnerId( 0 ),
 	GroupId( 0 ),
 	Permissions( 0 ),
@@ -71,6 +72,7 @@ FileInfo::FileInfo( const std::string& filepath ) :
 FileInfo::FileInfo( const std::string& filepath, bool linkInfo ) :
 	Filepath( filepath ),
 	ModificationTime( 0 ),
+	Size( 0 ),
 	OwnerId( 0 ),
 	GroupId( 0 ),
 	Permissions( 0 ),
diff --git a/src/efsw/platform/posix/FileSystemImpl.cpp b/src/efsw/platform/posix/FileSystemImpl.cpp
index 92eeb47..0f49cec 100644
--- a/src/efsw/platform/posix/FileSystemImpl.cpp
+++ b/src/efsw/platform/posix/FileSystemImpl.cpp
@@ -204,7 +204,8 @@ bool FileSystem::isRemoteFS( const std::string& directory ) {
 	EFSW_OS == EFSW_OS_SOLARIS || EFSW_OS == EFSW_OS_ANDROID || EFSW_OS == EFSW_OS_IOS
 	struct statfs statfsbuf;
 
-	statfs( directory.c_str(), &statfsbuf );
+	if ( statfs( directory.c_str(), &statfsbuf ) != 0 )
+		return false;
 
 	switch ( statfsbuf.f_type | 0UL ) {
 		case S_MAGIC_FUSEBLK: /* 0x65735546 remote */
-- 
2.43.0


From ebe093b5fa4efb94b9cc5f11c94f5d0c9ff91713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:50 +0000
Subject: [PATCH 27/36] fix: keep the path when realpath fails, its result is
 undefined

---
 src/efsw/FileSystem.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/efsw/FileSystem.cpp b/src/efsw/FileSystem.cpp
index d17f00c..108358d 100644
--- a/src/efsw/FileSystem.cpp
+++ b/src/efsw/FileSystem.cpp
@@ -150,8 +150,7 @@ std::string FileSystem::getRealPath( const std::string& path ) {
 	std::string realPath;
 #if defined( EFSW_PLATFORM_POSIX )
 	char dir[PATH_MAX];
-	realpath( path.c_str(), &dir[0] );
-	realPath = std::string( dir );
+	realPath = realpath( path.c_str(), &dir[0] ) != NULL ? std::string( dir ) : path;
 #elif EFSW_OS == EFSW_OS_WIN
 	wchar_t dir[_MAX_PATH + 1];
 	GetFullPathNameW( getWidePath( path ).c_str(), _MAX_PATH, &dir[0], nullptr );
-- 
2.43.0


From 727e7c64393251d307458a41e293b3d87842f736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:50 +0000
Subject: [PATCH 28/36] fix: polling: search the watches under their lock

---
 src/efsw/FileWatcherGeneric.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/efsw/FileWatcherGeneric.cpp b/src/efsw/FileWatcherGeneric.cpp
index 165fafa..0dda106 100644
--- a/src/efsw/FileWatcherGeneric.cpp
+++ b/src/efsw/FileWatcherGeneric.cpp
@@ -36,6 +36,8 @@ WatchID FileWatcherGeneric::addWatch( const std::string& directory, FileWatchLis
 
 	FileSystem::dirAddSlashAtEnd( dir );
 
+	Lock lock( mWatchesLock );
+
 	FileInfo fi( dir );
 
 	if ( !fi.isDirectory() ) {
@@ -63,7 +65,6 @@ WatchID FileWatcherGeneric::addWatch( const std::string& directory, FileWatchLis
 
 	WatcherGeneric* pWatch = new WatcherGeneric( mLastWatchID, dir, watcher, this, recursive );
 
-	Lock lock( mWatchesLock );
 	mWatches.push_back( pWatch );
 
 	return pWatch->ID;
@@ -73,14 +74,14 @@ void FileWatcherGeneric::removeWatch( const std::string& directory ) {
 	std::string dir( directory );
 	FileSystem::dirAddSlashAtEnd( dir );
 
+	Lock lock( mWatchesLock );
+
 	WatchList::iterator it = mWatches.begin();
 
 	for ( ; it != mWatches.end(); ++it ) {
 		if ( ( *it )->Directory == dir ) {
 			WatcherGeneric* watch = ( *it );
 
-			Lock lock( mWatchesLock );
-
 			mWatches.erase( it );
 
 			efSAFE_DELETE( watch );
@@ -91,14 +92,14 @@ void FileWatcherGeneric::removeWatch( const std::string& directory ) {
 }
 
 void FileWatcherGeneric::removeWatch( WatchID watchid ) {
+	Lock lock( mWatchesLock );
+
 	WatchList::iterator it = mWatches.begin();
 
 	for ( ; it != mWatches.end(); ++it ) {
 		if ( ( *it )->ID == watchid ) {
 			WatcherGeneric* watch = ( *it );
 
-			Lock lock( mWatchesLock );
-
 			mWatches.erase( it );
 
 			efSAFE_DELETE( watch );
@@ -154,6 +155,8 @@ std::vector<std::string> FileWatcherGeneric::directories() {
 }
 
 bool FileWatcherGeneric::pathInWatches( const std::string& path ) {
+	Lock lock( mWatchesLock );
+
 	WatchList::iterator it = mWatches.begin();
 
 	for ( ; it != mWatches.end(); ++it ) {
-- 
2.43.0


From ba8201822d9a904656c1352ab8447f6b70b28664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:38 +0000
Subject: [PATCH 29/36] fix: polling: allow the listeners to add and remove
 watches

---
 src/efsw/DirWatcherGeneric.cpp  |  6 ++++-
 src/efsw/FileWatcherGeneric.cpp | 45 +++++++++++++++++++++++----------
 src/efsw/FileWatcherGeneric.hpp |  7 +++++
 3 files changed, 44 insertions(+), 14 deletions(-)

diff --git a/src/efsw/DirWatcherGeneric.cpp b/src/efsw/DirWatcherGeneric.cpp
index 7761a8a..a8ddde9 100644
--- a/src/efsw/DirWatcherGeneric.cpp
+++ b/src/efsw/DirWatcherGeneric.cpp
@@ -91,6 +91,10 @@ void DirWatcherGeneric::resetDirectory( std::string directory ) {
 
 void DirWatcherGeneric::handleAction( const std::string& filename, unsigned long action,
 									  const std::string& oldFilename ) {
+	/// The listener could have removed the watch
+	if ( NULL == Watch->Listener )
+		return;
+
 	Watch->Listener->handleFileAction( Watch->ID, DirSnap.DirectoryInfo.Filepath,
 									   FileSystem::fileNameFromPath( filename ), (Action)action,
 									   oldFilename );
@@ -184,7 +188,7 @@ void DirWatcherGeneric::addChildren( bool reportNewFiles, bool links ) {
 void DirWatcherGeneric::watch( bool reportOwnChange ) {
 	DirectorySnapshotDiff Diff = DirSnap.scan();
 
-	if ( reportOwnChange && Diff.DirChanged && NULL != Parent ) {
+	if ( reportOwnChange && Diff.DirChanged && NULL != Parent && NULL != Watch->Listener ) {
 		Watch->Listener->handleFileAction(
 			Watch->ID, FileSystem::pathRemoveFileName( DirSnap.DirectoryInfo.Filepath ),
 			FileSystem::fileNameFromPath( DirSnap.DirectoryInfo.Filepath ), Actions::Modified );
diff --git a/src/efsw/FileWatcherGeneric.cpp b/src/efsw/FileWatcherGeneric.cpp
index 0dda106..748f0d4 100644
--- a/src/efsw/FileWatcherGeneric.cpp
+++ b/src/efsw/FileWatcherGeneric.cpp
@@ -80,11 +80,7 @@ void FileWatcherGeneric::removeWatch( const std::string& directory ) {
 
 	for ( ; it != mWatches.end(); ++it ) {
 		if ( ( *it )->Directory == dir ) {
-			WatcherGeneric* watch = ( *it );
-
-			mWatches.erase( it );
-
-			efSAFE_DELETE( watch );
+			eraseWatch( it );
 
 			return;
 		}
@@ -98,17 +94,27 @@ void FileWatcherGeneric::removeWatch( WatchID watchid ) {
 
 	for ( ; it != mWatches.end(); ++it ) {
 		if ( ( *it )->ID == watchid ) {
-			WatcherGeneric* watch = ( *it );
-
-			mWatches.erase( it );
-
-			efSAFE_DELETE( watch );
+			eraseWatch( it );
 
 			return;
 		}
 	}
 }
 
+void FileWatcherGeneric::eraseWatch( WatchList::iterator it ) {
+	WatcherGeneric* watch = ( *it );
+
+	mWatches.erase( it );
+
+	if ( mPolling ) {
+		/// Removed by a listener: it can be in use, and nothing else must be reported to it
+		watch->Listener = NULL;
+		mDeletedWatches.push_back( watch );
+	} else {
+		efSAFE_DELETE( watch );
+	}
+}
+
 void FileWatcherGeneric::watch() {
 	if ( NULL == mThread ) {
 		mThread = new Thread( [this] { run(); } );
@@ -121,11 +127,24 @@ void FileWatcherGeneric::run() {
 		{
 			Lock lock( mWatchesLock );
 
-			WatchList::iterator it = mWatches.begin();
+			/// The listeners could add and remove watches
+			WatchList watches( mWatches );
 
-			for ( ; it != mWatches.end(); ++it ) {
-				( *it )->watch();
+			mPolling = true;
+
+			for ( WatchList::iterator it = watches.begin(); it != watches.end(); ++it ) {
+				if ( NULL != ( *it )->Listener )
+					( *it )->watch();
 			}
+
+			mPolling = false;
+
+			for ( WatchList::iterator it = mDeletedWatches.begin(); it != mDeletedWatches.end();
+				  ++it ) {
+				efSAFE_DELETE( ( *it ) );
+			}
+
+			mDeletedWatches.clear();
 		}
 
 		if ( mInitOK )
diff --git a/src/efsw/FileWatcherGeneric.hpp b/src/efsw/FileWatcherGeneric.hpp
index f70f512..134ae07 100644
--- a/src/efsw/FileWatcherGeneric.hpp
+++ b/src/efsw/FileWatcherGeneric.hpp
@@ -50,6 +50,11 @@ class FileWatcherGeneric : public FileWatcherImpl {
 	/// Map of WatchID to WatchStruct pointers
 	WatchList mWatches;
 
+	/// Watches removed by a listener while polling
+	WatchList mDeletedWatches;
+
+	bool mPolling{ false };
+
 	Mutex mWatchesLock;
 
 	int mPollingFreq{ 1000 };
@@ -57,6 +62,8 @@ class FileWatcherGeneric : public FileWatcherImpl {
 	bool pathInWatches( const std::string& path ) override;
 
   private:
+	void eraseWatch( WatchList::iterator it );
+
 	void run();
 };
 
-- 
2.43.0


From 86904823a861982576807a51fb72ebf9a7b5843e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:38 +0000
Subject: [PATCH 30/36] fix: never take the directory of another user watch
 over

A directory renamed without the watch noticing has the same inotify id under
its new name: adding it replaced the first watch, with the same id.
---
 src/efsw/FileWatcherInotify.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 2acf667..5c9acf4 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -142,6 +142,10 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 		if ( watchIdExists != mWatches.end() ) {
 			WatcherInotify* oldWatch = watchIdExists->second;
 
+			// It belongs to another user watch, added before the directory was renamed
+			if ( NULL == oldWatch->Parent )
+				return Errors::Log::createLastError( Errors::FileRepeated, directory );
+
 			// It can't be the source of the move for another user watch
 			if ( mCurrentMoveFrom == oldWatch && parent && oldWatch->ID == parent->ID )
 				movedFrom = oldWatch->OldFileName;
-- 
2.43.0


From c0b0af2f65a88dc61bc70797e112c490a86de115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:17 +0000
Subject: [PATCH 31/36] fix: a link leading back into the tree does not descend
 into it again

The native backend followed a cycle of links until the stack overflowed.
---
 src/efsw/FileWatcherInotify.cpp | 30 +++++++++++++++---------------
 src/efsw/FileWatcherInotify.hpp |  2 ++
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 5c9acf4..7f89d66 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -112,6 +112,9 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 			return Errors::Log::createLastError( Errors::FileRepeated, directory );
 		} else if ( !linkAllowed( curPath, link ) ) {
 			return Errors::Log::createLastError( Errors::FileOutOfScope, dir );
+		} else if ( NULL != parent && pathIsWatched( link ) ) {
+			/// Already reached through its real path or through another link, it may contain this one
+			return Errors::Log::createLastError( Errors::FileRepeated, directory );
 		} else {
 			dir = link;
 		}
@@ -523,21 +526,8 @@ void FileWatcherInotify::checkForNewWatcher( Watcher* watch, std::string fpath )
 
 	/// If the watcher is recursive, checks if the new file is a folder, and creates a watcher
 	if ( watch->Listener && watch->Recursive && FileSystem::isDirectory( fpath ) ) {
-		bool found = false;
-
-		{
-			Lock lock( mWatchesLock );
-
-			/// First check if exists
-			for ( WatchMap::iterator it = mWatches.begin(); it != mWatches.end(); ++it ) {
-				if ( it->second->Directory == fpath ) {
-					found = true;
-					break;
-				}
-			}
-		}
-
-		if ( !found ) {
+		/// First check if exists
+		if ( !pathIsWatched( fpath ) ) {
 			WatcherInotify* iWatch = static_cast<WatcherInotify*>( watch );
 			addWatch( fpath, watch->Listener, watch->Recursive, iWatch->syntheticEvents,
 					  static_cast<WatcherInotify*>( watch ), true );
@@ -702,6 +692,16 @@ std::vector<std::string> FileWatcherInotify::directories() {
 	return dirs;
 }
 
+bool FileWatcherInotify::pathIsWatched( const std::string& path ) {
+	Lock lock( mWatchesLock );
+
+	for ( WatchMap::iterator it = mWatches.begin(); it != mWatches.end(); ++it )
+		if ( it->second->Directory == path )
+			return true;
+
+	return false;
+}
+
 bool FileWatcherInotify::pathInWatches( const std::string& path ) {
 	Lock l( mRealWatchesLock );
 
diff --git a/src/efsw/FileWatcherInotify.hpp b/src/efsw/FileWatcherInotify.hpp
index 7eea894..5ace12a 100644
--- a/src/efsw/FileWatcherInotify.hpp
+++ b/src/efsw/FileWatcherInotify.hpp
@@ -69,6 +69,8 @@ class FileWatcherInotify : public FileWatcherImpl {
 
 	bool pathInWatches( const std::string& path ) override;
 
+	bool pathIsWatched( const std::string& path );
+
   private:
 	void run();
 
-- 
2.43.0


From 657e9d928c7aedc017a7e7e33963a488c04c4322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:35 +0000
Subject: [PATCH 32/36] fix: polling: watch what a removed link led to through
 the other links to it

---
 src/efsw/DirWatcherGeneric.cpp |  4 ++++
 src/efsw/WatcherGeneric.cpp    | 11 ++++++++++-
 src/efsw/WatcherGeneric.hpp    |  1 +
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/efsw/DirWatcherGeneric.cpp b/src/efsw/DirWatcherGeneric.cpp
index a8ddde9..c0acf32 100644
--- a/src/efsw/DirWatcherGeneric.cpp
+++ b/src/efsw/DirWatcherGeneric.cpp
@@ -31,6 +31,10 @@ DirWatcherGeneric::DirWatcherGeneric( DirWatcherGeneric* parent, WatcherGeneric*
 }
 
 DirWatcherGeneric::~DirWatcherGeneric() {
+	if ( IsLink ) {
+		Watch->LinkRemoved = true;
+	}
+
 	/// If the directory was deleted report the deletion of everything known to be in it
 	if ( Deleted ) {
 		/// (by now something else could be found under its path)
diff --git a/src/efsw/WatcherGeneric.cpp b/src/efsw/WatcherGeneric.cpp
index e40a35e..027567a 100644
--- a/src/efsw/WatcherGeneric.cpp
+++ b/src/efsw/WatcherGeneric.cpp
@@ -6,7 +6,10 @@ namespace efsw {
 
 WatcherGeneric::WatcherGeneric( WatchID id, const std::string& directory, FileWatchListener* fwl,
 								FileWatcherImpl* fw, bool recursive ) :
-	Watcher( id, directory, fwl, recursive ), WatcherImpl( fw ), DirWatch( NULL ) {
+	Watcher( id, directory, fwl, recursive ),
+	WatcherImpl( fw ),
+	DirWatch( NULL ),
+	LinkRemoved( false ) {
 	FileSystem::dirAddSlashAtEnd( Directory );
 
 	DirWatch = new DirWatcherGeneric( NULL, this, directory, recursive, false );
@@ -20,6 +23,12 @@ WatcherGeneric::~WatcherGeneric() {
 
 void WatcherGeneric::watch() {
 	DirWatch->watch();
+
+	if ( LinkRemoved ) {
+		LinkRemoved = false;
+
+		DirWatch->addChildren();
+	}
 }
 
 void WatcherGeneric::watchDir( std::string dir ) {
diff --git a/src/efsw/WatcherGeneric.hpp b/src/efsw/WatcherGeneric.hpp
index d11ec20..def82f3 100644
--- a/src/efsw/WatcherGeneric.hpp
+++ b/src/efsw/WatcherGeneric.hpp
@@ -11,6 +11,7 @@ class WatcherGeneric : public Watcher {
   public:
 	FileWatcherImpl* WatcherImpl;
 	DirWatcherGeneric* DirWatch;
+	bool LinkRemoved; ///< What it led to could be still reached through another link
 
 	WatcherGeneric( WatchID id, const std::string& directory, FileWatchListener* fwl,
 					FileWatcherImpl* fw, bool recursive );
-- 
2.43.0


From e7236fa276d940e35e0ccaa1d1e107cbd17e8ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:31 +0000
Subject: [PATCH 33/36] fix: follow a link renamed before it was watched

---
 src/efsw/FileWatcherInotify.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 7f89d66..a920cad 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -589,6 +589,10 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 				checkForNewWatcher( watch, fpath );
 		} else {
 			notify( watch, filename, Actions::Moved, watch->OldFileName );
+
+			/// A link could have been renamed before it was possible to follow it
+			if ( mayBeDirectory && !( IN_ISDIR & action ) )
+				checkForNewWatcher( watch, fpath );
 		}
 
 		/// The directory could have been already renamed again, its events will follow
-- 
2.43.0


From ec9aa926f44b700f840d15e97617bf66587b8b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:04 +0000
Subject: [PATCH 34/36] fix: polling: keep watching a directory renamed while
 it is being polled

---
 src/efsw/DirWatcherGeneric.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/efsw/DirWatcherGeneric.cpp b/src/efsw/DirWatcherGeneric.cpp
index c0acf32..f896a72 100644
--- a/src/efsw/DirWatcherGeneric.cpp
+++ b/src/efsw/DirWatcherGeneric.cpp
@@ -336,9 +336,13 @@ void DirWatcherGeneric::updateDirectory( std::string dir ) {
 	DirWatchMap::iterator dit = Directories.find( dir );
 
 	if ( dit != Directories.end() ) {
-		if ( resolveDirectory( dir, path, isLink ) &&
-			 path == dit->second->DirSnap.DirectoryInfo.Filepath )
+		if ( resolveDirectory( dir, path, isLink ) ) {
+			if ( path == dit->second->DirSnap.DirectoryInfo.Filepath )
+				return;
+		} else if ( !FileInfo::exists( path ) ) {
+			/// Deleted or moved in the meantime, what happened to it will be found out by the parent
 			return;
+		}
 
 		removeDirectory( dir );
 	}
@@ -412,6 +416,9 @@ void DirWatcherGeneric::moveDirectory( std::string oldDir, std::string newDir )
 
 		if ( !dw->IsLink )
 			dw->resetDirectory( newDir );
+	} else {
+		/// It could have been moved before it was possible to watch it
+		watchDirectory( newDir );
 	}
 }
 
-- 
2.43.0


From 8f6d977ff24b8f61359592d40628c9dac3e738a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:49 +0000
Subject: [PATCH 35/36] fix: watch again a new directory renamed, with one
 above it, while it was being listed

---
 src/efsw/FileWatcherInotify.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index a920cad..4f9739d 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -189,6 +189,17 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 	if ( pWatch->Recursive ) {
 		std::map<std::string, FileInfo> files = FileSystem::filesInfoFromPath( pWatch->Directory );
 
+		if ( fromInternalEvent && parent != NULL &&
+			 !FileInfo( pWatch->Directory ).sameInode( fi ) ) {
+			/// Renamed while it was being listed, it will be watched again under its new path
+			Lock lock( mWatchesLock );
+
+			if ( mWatches.find( wd ) != mWatches.end() && mWatches[wd] == pWatch )
+				removeWatchLocked( wd );
+
+			return Errors::Log::createLastError( Errors::FileNotFound, dir );
+		}
+
 		if ( fromInternalEvent && parent != NULL && syntheticEvents ) {
 			for ( const auto& file : files ) {
 				if ( file.second.isRegularFile() || file.second.isDirectory() ||
-- 
2.43.0


From 0f686b7b64c934320358639e9343d0344780e0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:05 +0000
Subject: [PATCH 36/36] fix: keep directories() off the watched paths while a
 rename changes them

---
 src/efsw/FileWatcherInotify.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 4f9739d..97638a6 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -616,14 +616,19 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 			Lock lock( mWatchesLock );
 			bool wasWatched = false;
 
-			for ( WatchMap::iterator it = mWatches.begin(); it != mWatches.end(); ++it ) {
-				if ( it->second->Directory == opath ) {
-					wasWatched = true;
-					it->second->Directory = fpath;
-					it->second->DirInfo.Filepath = fpath;
-				} else if ( -1 != String::strStartsWith( opath, it->second->Directory ) ) {
-					it->second->Directory = fpath + it->second->Directory.substr( opath.size() );
-					it->second->DirInfo.Filepath = it->second->Directory;
+			{
+				/// directories() only takes this lock
+				Lock l( mRealWatchesLock );
+
+				for ( WatchMap::iterator it = mWatches.begin(); it != mWatches.end(); ++it ) {
+					if ( it->second->Directory == opath ) {
+						wasWatched = true;
+						it->second->Directory = fpath;
+						it->second->DirInfo.Filepath = fpath;
+					} else if ( -1 != String::strStartsWith( opath, it->second->Directory ) ) {
+						it->second->Directory = fpath + it->second->Directory.substr( opath.size() );
+						it->second->DirInfo.Filepath = it->second->Directory;
+					}
 				}
 			}
 
-- 
2.43.0

