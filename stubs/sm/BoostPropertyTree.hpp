#pragma once
#include <boost/property_tree/ptree.hpp>
#include <boost/property_tree/xml_parser.hpp>
#include <sm/PropertyTree.hpp>
namespace sm {
// a property tree that can be read from and written to a file; keys set through it lie below the base namespace
class BoostPropertyTree : public PropertyTree {
 public:
  BoostPropertyTree() {}
  explicit BoostPropertyTree(const std::string& base) : PropertyTree(PropertyTree(), base) {}
  void loadXml(const std::string& file) {
    boost::property_tree::ptree t;
    boost::property_tree::read_xml(file, t, boost::property_tree::xml_parser::trim_whitespace | boost::property_tree::xml_parser::no_comments);
    _v->clear();
    fill("", t);
  }
  void saveXml(const std::string& file) const {
    boost::property_tree::ptree t;
    for (const auto& e : *_v) t.put(boost::property_tree::ptree::path_type(e.first, '/'), e.second);
    boost::property_tree::write_xml(file, t);
  }
 private:
  void fill(const std::string& at, const boost::property_tree::ptree& t) {
    for (const auto& c : t) {
      if (c.first == "<xmlattr>") continue;
      const std::string k = at.empty() ? c.first : at + "/" + c.first;
      if (c.second.empty() || !c.second.data().empty()) _v->emplace(k, c.second.data());
      fill(k, c.second);
    }
  }
};
}
