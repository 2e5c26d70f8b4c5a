/* Stand-in for asdcplib: results */
#ifndef SHIM_KM_ERROR_H
#define SHIM_KM_ERROR_H

#include <string>

namespace Kumu {

class Result_t
{
public:
	Result_t() : _value(0), _os_error(0) {}
	Result_t(int v, std::string const& symbol, std::string const& message, int os_error = 0) : _value(v), _os_error(os_error), _symbol(symbol), _message(message) {}
	bool operator==(Result_t const& o) const { return _value == o._value; }
	bool operator!=(Result_t const& o) const { return _value != o._value; }
	bool Success() const { return _value >= 0; }
	bool Failure() const { return _value < 0; }
	int Value() const { return _value; }
	int OsError() const { return _os_error; }
	operator int() const { return _value; }
	char const* Label() const { return _symbol.c_str(); }
	char const* Symbol() const { return _symbol.c_str(); }
	char const* Message() const { return _message.c_str(); }
private:
	int _value;
	int _os_error;
	std::string _symbol;
	std::string _message;
};

const Result_t RESULT_FALSE(1, "RESULT_FALSE", "Successful but not true.");
const Result_t RESULT_OK(0, "RESULT_OK", "Success.");
const Result_t RESULT_FAIL(-1, "RESULT_FAIL", "An undefined error was detected.");
const Result_t RESULT_PTR(-2, "RESULT_PTR", "An unexpected NULL pointer was given.");
const Result_t RESULT_NULL_STR(-3, "RESULT_NULL_STR", "An unexpected empty string was given.");
const Result_t RESULT_ALLOC(-4, "RESULT_ALLOC", "Error allocating memory.");
const Result_t RESULT_PARAM(-5, "RESULT_PARAM", "Invalid parameter.");
const Result_t RESULT_NOTIMPL(-6, "RESULT_NOTIMPL", "Unimplemented Feature.");
const Result_t RESULT_SMALLBUF(-7, "RESULT_SMALLBUF", "The given buffer is too small.");
const Result_t RESULT_INIT(-8, "RESULT_INIT", "The object is not yet initialized.");
const Result_t RESULT_NOT_FOUND(-9, "RESULT_NOT_FOUND", "The requested file does not exist on the system.");
const Result_t RESULT_NO_PERM(-10, "RESULT_NO_PERM", "Insufficient privilege exists to perform the operation.");
const Result_t RESULT_STATE(-11, "RESULT_STATE", "Object state error.");
const Result_t RESULT_CONFIG(-12, "RESULT_CONFIG", "Invalid configuration option detected.");
const Result_t RESULT_FILEOPEN(-13, "RESULT_FILEOPEN", "File open failure.");
const Result_t RESULT_BADSEEK(-14, "RESULT_BADSEEK", "An invalid file location was requested.");
const Result_t RESULT_READFAIL(-15, "RESULT_READFAIL", "File read error.");
const Result_t RESULT_WRITEFAIL(-16, "RESULT_WRITEFAIL", "File write error.");
const Result_t RESULT_ENDOFFILE(-17, "RESULT_ENDOFFILE", "Attempt to read past end of file.");

}

#define KM_SUCCESS(v) (((v) < 0) ? 0 : 1)
#define KM_FAILURE(v) (((v) < 0) ? 1 : 0)

#endif
