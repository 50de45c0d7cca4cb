#pragma once
#include <map>
#include <string>
#include <vector>
#include <stdexcept>
namespace XmlRpc {
class XmlRpcException { public: XmlRpcException(const std::string& m, int c = -1) : _message(m), _code(c) {} const std::string& getMessage() const { return _message; } int getCode() const { return _code; } private: std::string _message; int _code; };
class XmlRpcValue {
public:
  enum Type { TypeInvalid, TypeBoolean, TypeInt, TypeDouble, TypeString, TypeDateTime, TypeBase64, TypeArray, TypeStruct };
  typedef std::map<std::string, XmlRpcValue> ValueStruct;
  typedef std::vector<XmlRpcValue> ValueArray;
  XmlRpcValue() {}
  XmlRpcValue(bool v) : t_(TypeBoolean), b_(v) {}
  XmlRpcValue(int v) : t_(TypeInt), i_(v) {}
  XmlRpcValue(double v) : t_(TypeDouble), d_(v) {}
  XmlRpcValue(const std::string& v) : t_(TypeString), s_(v) {}
  XmlRpcValue(const char* v) : t_(TypeString), s_(v) {}
  bool valid() const { return t_ != TypeInvalid; }
  Type getType() const { return t_; }
  int size() const { if (t_ == TypeArray) return (int)a_.size(); if (t_ == TypeStruct) return (int)m_.size(); if (t_ == TypeString) return (int)s_.size(); throw XmlRpcException("type error"); }
  void setSize(int n) { chk(TypeArray); a_.resize(n); }
  bool hasMember(const std::string& n) const { return t_ == TypeStruct && m_.count(n); }
  operator bool&() { chk(TypeBoolean); return b_; }
  operator int&() { chk(TypeInt); return i_; }
  operator double&() { chk(TypeDouble); return d_; }
  operator std::string&() { chk(TypeString); return s_; }
  operator const bool&() const { cchk(TypeBoolean); return b_; }
  operator const int&() const { cchk(TypeInt); return i_; }
  operator const double&() const { cchk(TypeDouble); return d_; }
  operator const std::string&() const { cchk(TypeString); return s_; }
  XmlRpcValue& operator[](int i) { chk(TypeArray); if (i >= (int)a_.size()) a_.resize(i + 1); return a_[i]; }
  const XmlRpcValue& operator[](int i) const { cchk(TypeArray); return a_.at(i); }
  XmlRpcValue& operator[](const std::string& k) { chk(TypeStruct); return m_[k]; }
  XmlRpcValue& operator[](const char* k) { chk(TypeStruct); return m_[k]; }
  const XmlRpcValue& operator[](const std::string& k) const { cchk(TypeStruct); return m_.at(k); }
  ValueStruct::iterator begin() { chk(TypeStruct); return m_.begin(); }
  ValueStruct::iterator end() { chk(TypeStruct); return m_.end(); }
private:
  void chk(Type t) { if (t_ == TypeInvalid) t_ = t; else if (t_ != t) throw XmlRpcException("type error"); }
  void cchk(Type t) const { if (t_ != t) throw XmlRpcException("type error"); }
  Type t_ = TypeInvalid; bool b_ = false; int i_ = 0; double d_ = 0; std::string s_; ValueArray a_; ValueStruct m_;
};
}
