#ifndef SHIM_KM_LOG_H
#define SHIM_KM_LOG_H

#include "KM_error.h"
#include <cstdint>

namespace Kumu {

enum LogType_t { LOG_DEBUG, LOG_INFO, LOG_WARN, LOG_ERROR, LOG_NOTICE, LOG_ALERT, LOG_CRIT };

static const int LOG_ALLOW_NONE = 0;
static const int LOG_ALLOW_ALL = 0xffff;

class ILogSink
{
public:
	virtual ~ILogSink() {}
	void SetFilterFlag(int) {}
	void UnsetFilterFlag(int) {}
};

class EntryListLogSink : public ILogSink {};

ILogSink& DefaultLogSink();

}

#endif
