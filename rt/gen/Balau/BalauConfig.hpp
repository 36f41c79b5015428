// @formatter:off
//
// Balau core C++ library
//
// Copyright (C) 2017 Bora Software (contact@borasoftware.com)
//
// Licensed under the Apache License, Version 2.0 (the "License");
// you may not use this file except in compliance with the License.
// You may obtain a copy of the License at
//
//     http://www.apache.org/licenses/LICENSE-2.0
//
// Unless required by applicable law or agreed to in writing, software
// distributed under the License is distributed on an "AS IS" BASIS,
// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
// See the License for the specific language governing permissions and
// limitations under the License.
//

#ifndef COM_BORA_SOFTWARE__BALAU_CONFIG
#define COM_BORA_SOFTWARE__BALAU_CONFIG

#define BALAU_ENABLE_ZLIB
#define BALAU_ENABLE_ZIP
#define BALAU_ENABLE_CURL
#define BALAU_ENABLE_HTTP
/* #undef BALAU_ENABLE_THREAD_LOCAL_LOGGING_ALLOCATOR */
/* #undef BALAU_ENABLE_TRACE_LOGGING */
/* #undef BALAU_USE_BOOST_STRING_VIEW */
/* #undef BALAU_USE_CUSTOM_REINTERPRET_POINTER_CAST */

#ifdef BALAU_ENABLE_TRACE_LOGGING
	#define BOOST_ASIO_ENABLE_HANDLER_TRACKING
#endif // BALAU_ENABLE_TRACE_LOGGING

#define BALAU_ENABLE_STACKTRACES
#define BOOST_BEAST_NEW_API

#endif // COM_BORA_SOFTWARE__BALAU_CONFIG

