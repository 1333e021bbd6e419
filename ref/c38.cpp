// Reference specification for C38 (parsed, never compiled to code or run).
#include "base.hpp"
#include <algorithm>
#include <cstring>
#include <limits>
#include <regex>
#include "setting_file_reader/initialize_file_access.hpp"
#include "utilities/macros.hpp"
// ---------------------------------------------------------------- setting_file_reader/initialize_file_access.cpp
namespace s2e::setting_file_reader::ref {
//= s2e::setting_file_reader::IniAccess::IniAccess
void IniAccess_Ctor(IniAccess* self, const std::string file_path) {
  MUT(self->file_path_) = file_path;
  MUT(self->ini_reader_) = INIReader(file_path);

  strncpy(self->file_path_char_, self->file_path_.c_str(), IniAccess::kMaxCharLength);

  std::string ext = ".ini";
  if (self->file_path_.size() < 4 || !std::equal(std::rbegin(ext), std::rend(ext), std::rbegin(self->file_path_))) {
    // this is not ini file(csv)
    return;
  }
  if (self->ini_reader_.ParseError() != 0) {
    std::cerr << "Error reading INI file : " << self->file_path_ << std::endl;
    std::cerr << "\t error code: " << self->ini_reader_.ParseError() << std::endl;
    throw std::runtime_error("Error reading INI file");
  }
}
//= s2e::setting_file_reader::IniAccess::ReadVectorUnsignedChar
std::vector<unsigned char> IniAccess_ReadVectorUnsignedChar(IniAccess* self, const char* section_name, const char* key_name, const size_t num) {
  std::vector<unsigned char> data;
  for (size_t i = 0; i < num; i++) {
    std::stringstream edited_key_name;
    edited_key_name << key_name << "(" << i << ")";
    data.push_back((unsigned char)self->ReadInt(section_name, edited_key_name.str().c_str()));
  }
  return data;
}
//= s2e::setting_file_reader::IniAccess::ReadDouble
double IniAccess_ReadDouble(IniAccess* self, const char* section_name, const char* key_name) {
#ifdef WIN32
  std::stringstream value;
  double temp = 0;

  GetPrivateProfileStringA(section_name, key_name, 0, text_buffer_, kMaxCharLength, file_path_char_);

  value << text_buffer_;  // input string
  value >> temp;          // return as double
  //	std::cout << text_buffer_;

  return temp;
#else
  UNUSED(self->text_buffer_);
  return self->ini_reader_.GetReal(section_name, key_name, 0);
#endif
}
//= s2e::setting_file_reader::IniAccess::ReadInt
int IniAccess_ReadInt(IniAccess* self, const char* section_name, const char* key_name) {
#ifdef WIN32
  int temp;

  temp = GetPrivateProfileIntA(section_name, key_name, 0, file_path_char_);

  return temp;
#else
  return (int)self->ini_reader_.GetInteger(section_name, key_name, 0);
#endif
}
//= s2e::setting_file_reader::IniAccess::ReadVectorInt
std::vector<int> IniAccess_ReadVectorInt(IniAccess* self, const char* section_name, const char* key_name, const size_t num) {
  std::vector<int> data;
  for (size_t i = 0; i < num; i++) {
    std::stringstream edited_key_name;
    edited_key_name << key_name << "(" << i << ")";
    data.push_back(self->ReadInt(section_name, edited_key_name.str().c_str()));
  }
  return data;
}
//= s2e::setting_file_reader::IniAccess::ReadBoolean
bool IniAccess_ReadBoolean(IniAccess* self, const char* section_name, const char* key_name) {
#ifdef WIN32
  int temp;

  temp = GetPrivateProfileIntA(section_name, key_name, 0, file_path_char_);
  if (temp > 0) {
    return true;
  }
  return false;
#else
  return self->ini_reader_.GetBoolean(section_name, key_name, false);
#endif
}
//= s2e::setting_file_reader::IniAccess::ReadDoubleArray
void IniAccess_ReadDoubleArray(IniAccess* self, const char* section_name, const char* key_name, const int id, const int num, double* data) {
  for (int i = 0; i < num; i++) {
    std::stringstream edited_key_name;
    edited_key_name << key_name << id << "(" << i << ")";
    data[i] = self->ReadDouble(section_name, edited_key_name.str().c_str());
  }
}
//= s2e::setting_file_reader::IniAccess::ReadVectorDouble
std::vector<double> IniAccess_ReadVectorDouble(IniAccess* self, const char* section_name, const char* key_name, const size_t num) {
  std::vector<double> data;
  for (size_t i = 0; i < num; i++) {
    std::stringstream edited_key_name;
    edited_key_name << key_name << "(" << i << ")";
    data.push_back(self->ReadDouble(section_name, edited_key_name.str().c_str()));
  }
  return data;
}
//= s2e::setting_file_reader::IniAccess::ReadQuaternion
void IniAccess_ReadQuaternion(IniAccess* self, const char* section_name, const char* key_name, math::Quaternion& data) {
  math::Quaternion temp;
  double norm = 0.0;

  for (int i = 0; i < 4; i++) {  // Read Quaternion as new format
    std::stringstream edited_key_name;
    edited_key_name << key_name << "_(" << i << ")";
    temp[i] = self->ReadDouble(section_name, edited_key_name.str().c_str());
    norm += temp[i] * temp[i];
  }
  if (norm == 0.0) {  // If it is not new format, try to read old format
    for (int i = 0; i < 4; i++) {
      std::stringstream edited_key_name;
      edited_key_name << key_name << "(" << i << ")";
      data[i] = self->ReadDouble(section_name, edited_key_name.str().c_str());
    }
  } else {
    data[0] = temp[0];
    data[1] = temp[1];
    data[2] = temp[2];
    data[3] = temp[3];
  }
}
//= s2e::setting_file_reader::IniAccess::ReadChar
void IniAccess_ReadChar(IniAccess* self, const char* section_name, const char* key_name, const int size, char* data) {
#ifdef WIN32
  GetPrivateProfileStringA(section_name, key_name, 0, data, size, file_path_char_);
#else
  std::string string_data = self->ReadString(section_name, key_name);
  strncpy(data, string_data.c_str(), size);
#endif
}
//= s2e::setting_file_reader::IniAccess::ReadString
std::string IniAccess_ReadString(IniAccess* self, const char* section_name, const char* key_name) {
  std::string value;
#ifdef WIN32
  char temp[kMaxCharLength];
  ReadChar(section_name, key_name, kMaxCharLength, temp);
  value = std::string(temp);
#else
  value = self->ini_reader_.GetString(section_name, key_name, "NULL");
#endif
  // Special characters
  // Inline comments
  std::regex inline_comment_pattern("\\s*//.*");
  value = std::regex_replace(value, inline_comment_pattern, "");
  // INI_FILE_DIR
  std::string ini_path = SETTINGS_DIR_FROM_EXE;
  value = std::regex_replace(value, std::regex("SETTINGS_DIR_FROM_EXE"), ini_path);
  // EXT_LIB_DIR
  std::string ext_lib_path = EXT_LIB_DIR_FROM_EXE;
  value = std::regex_replace(value, std::regex("EXT_LIB_DIR_FROM_EXE"), ext_lib_path);
  // CORE_DIR
  std::string s2e_core_path = CORE_DIR_FROM_EXE;
  value = std::regex_replace(value, std::regex("CORE_DIR_FROM_EXE"), s2e_core_path);

  return value;
}
//= s2e::setting_file_reader::IniAccess::ReadVectorString
std::vector<std::string> IniAccess_ReadVectorString(IniAccess* self, const char* section_name, const char* key_name, const size_t num) {
  std::vector<std::string> data;
  for (size_t i = 0; i < num; i++) {
    std::stringstream edited_key_name;
    edited_key_name << key_name << "(" << i << ")";
    data.push_back(self->ReadString(section_name, edited_key_name.str().c_str()));
  }
  return data;
}
//= s2e::setting_file_reader::IniAccess::ReadEnable
bool IniAccess_ReadEnable(IniAccess* self, const char* section_name, const char* key_name) {
  std::string enable_string = self->ReadString(section_name, key_name);
  if (enable_string.compare("ENABLE") == 0) return true;
  if (enable_string.compare("1") == 0) return true;
  return false;
}
//= s2e::setting_file_reader::IniAccess::ReadStrVector
std::vector<std::string> IniAccess_ReadStrVector(IniAccess* self, const char* section_name, const char* key_name) {
  std::vector<std::string> data;
  std::string temp;
  unsigned int i = 0;
  while (true) {
    std::stringstream c_name;
    c_name << key_name << "(" << i << ")";
    temp = self->ReadString(section_name, c_name.str().c_str());
#ifdef WIN32
    if (temp.c_str()[0] == NULL) {
#else
    if (!strcmp(temp.c_str(), "NULL")) {
#endif
      break;
    } else {
      data.push_back(temp);
      i++;
    }
  }
  return data;
}
//= s2e::setting_file_reader::IniAccess::Split
std::vector<std::string> IniAccess_Split(IniAccess* self, const std::string& input, const char delimiter) {
  std::istringstream stream(input);
  std::string field;
  std::vector<std::string> result;
  while (getline(stream, field, delimiter)) {
    result.push_back(field);
  }
  return result;
}
//= s2e::setting_file_reader::IniAccess::ReadCsvDouble
void IniAccess_ReadCsvDouble(IniAccess* self, std::vector<std::vector<double>>& output_value, const size_t node_num) {
  std::ifstream ifs(self->file_path_char_);
  if (!ifs.is_open()) {
    std::cerr << "file open error. filename = " << self->file_path_char_ << std::endl;
  }
  std::string line;

  output_value.reserve(node_num);
  while (getline(ifs, line)) {
    std::vector<std::string> string_vector = self->Split(line, ',');
    std::vector<double> temp;
    temp.reserve(node_num);
    for (size_t i = 0; i < string_vector.size(); i++) {
      temp.push_back(std::stod(string_vector.at(i)));
    }
    output_value.push_back(temp);
  }
}
//= s2e::setting_file_reader::IniAccess::ReadCsvDoubleWithHeader
void IniAccess_ReadCsvDoubleWithHeader(IniAccess* self, std::vector<std::vector<double>>& output_value, const size_t node_num, const size_t row_header_num, const size_t column_header_num) {
  std::ifstream ifs(self->file_path_char_);
  if (!ifs.is_open()) {
    std::cerr << "file open error. filename = " << self->file_path_char_ << std::endl;
  }
  std::string line;
  size_t line_num = 0;
  output_value.reserve(node_num);
  while (getline(ifs, line)) {
    if (line_num >= row_header_num) {
      std::vector<std::string> string_vector = self->Split(line, ',');
      std::vector<double> temp;
      temp.reserve(node_num);
      for (size_t i = 0; i < string_vector.size(); i++) {
        if (i >= column_header_num) {
          temp.push_back(std::stod(string_vector.at(i)));
        }
      }
      output_value.push_back(temp);
    }
    line_num++;
  }
}
//= s2e::setting_file_reader::IniAccess::ReadCsvString
void IniAccess_ReadCsvString(IniAccess* self, std::vector<std::vector<std::string>>& output_value, const size_t node_num) {
  std::ifstream ifs(self->file_path_char_);
  if (!ifs.is_open()) {
    std::cerr << "file open error. filename = " << self->file_path_char_ << std::endl;
  }
  std::string line;
  output_value.reserve(node_num);
  while (getline(ifs, line)) {
    std::vector<std::string> temp = self->Split(line, ',');
    temp.reserve(node_num);
    output_value.push_back(temp);
  }
}
}

// ---------------------------------------------------------------- setting_file_reader/initialize_file_access.hpp
namespace s2e::setting_file_reader::ref {
//= s2e::setting_file_reader::IniAccess::ReadVector(constchar*,constchar*,s2e::math::Vector<9,double>&)
void IniAccess_ReadVector(IniAccess* self, const char* section_name, const char* key_name, math::Vector<9>& data) {
  for (size_t i = 0; i < 9; i++) {
    std::stringstream c_name;
    c_name << key_name << "(" << i << ")";
    data[i] = self->ReadDouble(section_name, c_name.str().c_str());
  }
}
}
