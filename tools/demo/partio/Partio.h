// Minimal stand-in for Disney's Partio (the git submodule is empty in this
// sandbox).  Implements just the API aqsis uses, with a private file format.
#ifndef VERIF_PARTIO_STUB_H
#define VERIF_PARTIO_STUB_H
#include <string>
#include <vector>
#include <cstddef>
#include <map>
#include <cfloat>
#include <cmath>
#include <iostream>
#include <cstring>
namespace Partio {
enum ParticleAttributeType { NONE = 0, VECTOR = 1, FLOAT = 2, INT = 3, INDEXEDSTR = 4 };
typedef size_t ParticleIndex;
struct ParticleAttribute
{
    ParticleAttributeType type; int count; std::string name; int attributeIndex;
    ParticleAttribute() : type(NONE), count(0), attributeIndex(-1) {}
};
template<class T, int d> struct Data
{
    T x[d];
    const T& operator[](int i) const { return x[i]; }
    T& operator[](int i) { return x[i]; }
};
class ParticlesInfo
{
    public:
        virtual ~ParticlesInfo() {}
        void release() const { delete this; }
        int numParticles() const { return (int)m_n; }
        int numAttributes() const { return (int)m_attrs.size(); }
        bool attributeInfo(const char* name, ParticleAttribute& a) const
        {
            for(size_t i = 0; i < m_attrs.size(); ++i)
                if(m_attrs[i].name == name) { a = m_attrs[i]; return true; }
            return false;
        }
        bool attributeInfo(int i, ParticleAttribute& a) const
        {
            if(i < 0 || i >= (int)m_attrs.size()) return false;
            a = m_attrs[i]; return true;
        }
    protected:
        size_t m_n;
        std::vector<ParticleAttribute> m_attrs;
        std::vector<std::vector<float> > m_data;
        ParticlesInfo() : m_n(0) {}
        friend class ParticleAccessor;
};
class ParticlesData;
class ParticleAccessor;
class ParticlesData : public ParticlesInfo
{
    public:
        class const_iterator
        {
            public:
                const_iterator() : m_p(0), m_i(0) {}
                const_iterator(const ParticlesData* p, size_t i) : m_p(p), m_i(i) {}
                void addAccessor(ParticleAccessor&) {}
                const_iterator& operator++() { ++m_i; return *this; }
                bool operator!=(const const_iterator& o) const { return m_i != o.m_i; }
                bool operator==(const const_iterator& o) const { return m_i == o.m_i; }
                const ParticlesData* m_p; size_t m_i;
        };
        const_iterator begin() const { return const_iterator(this, 0); }
        const_iterator end() const { return const_iterator(this, m_n); }
        template<class T> const T* data(const ParticleAttribute& a, ParticleIndex i) const
        { return reinterpret_cast<const T*>(&m_data[a.attributeIndex][i*a.count]); }
        void dataAsFloat(const ParticleAttribute& a, int n, const ParticleIndex* idx,
                         bool sorted, float* out) const;
        int findNPoints(const float center[3], int n, float maxRadius,
                        ParticleIndex* points, float* distSq, float* finalRadius2) const;
};
class ParticleAccessor
{
    public:
        ParticleAccessor(const ParticleAttribute& a) : m_a(a) {}
        template<class T> const T& data(const ParticlesData::const_iterator& it) const
        { return *it.m_p->template data<T>(m_a, it.m_i); }
    private:
        ParticleAttribute m_a;
};
class ParticlesDataMutable : public ParticlesData
{
    public:
        ParticleAttribute addAttribute(const char* name, ParticleAttributeType type, int count);
        ParticleIndex addParticle();
        template<class T> T* dataWrite(const ParticleAttribute& a, ParticleIndex i)
        { return reinterpret_cast<T*>(&m_data[a.attributeIndex][i*a.count]); }
        void sort() {}
        friend ParticlesDataMutable* read(const char*, bool);
        friend void write(const char*, const ParticlesData&, bool);
        static void save(const ParticlesData& p, const char* f);
        static ParticlesDataMutable* load(const char* f);
};
ParticlesDataMutable* create();
ParticlesDataMutable* read(const char* fileName, bool verbose = true);
void write(const char* fileName, const ParticlesData& p, bool forceCompressed = false);
}
#endif
