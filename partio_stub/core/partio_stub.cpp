#include "Partio.h"
#include <cstdio>
#include <cstring>
#include <algorithm>
namespace Partio {
void ParticlesData::dataAsFloat(const ParticleAttribute& a, int n, const ParticleIndex* idx,
                                bool, float* out) const
{
    for(int i = 0; i < n; ++i)
        for(int c = 0; c < a.count; ++c)
            out[i*a.count + c] = m_data[a.attributeIndex][idx[i]*a.count + c];
}
int ParticlesData::findNPoints(const float ce[3], int n, float maxRadius,
        ParticleIndex* points, float* distSq, float* finalRadius2) const
{
    ParticleAttribute pos;
    if(!attributeInfo("position", pos)) return 0;
    std::vector<std::pair<float, size_t> > d(m_n);
    for(size_t i = 0; i < m_n; ++i)
    {
        const float* p = &m_data[pos.attributeIndex][3*i];
        float x = p[0]-ce[0], y = p[1]-ce[1], z = p[2]-ce[2];
        d[i] = std::make_pair(x*x + y*y + z*z, i);
    }
    int k = std::min<size_t>(n, m_n);
    std::partial_sort(d.begin(), d.begin() + k, d.end());
    int found = 0;
    for(; found < k; ++found)
    {
        if((double)d[found].first > (double)maxRadius*maxRadius) break;
        distSq[found] = d[found].first; points[found] = d[found].second;
    }
    if(finalRadius2) *finalRadius2 = found ? distSq[found-1] : 0;
    return found;
}
ParticleAttribute ParticlesDataMutable::addAttribute(const char* name, ParticleAttributeType type, int count)
{
    ParticleAttribute a; a.type = type; a.count = count; a.name = name;
    a.attributeIndex = (int)m_attrs.size();
    m_attrs.push_back(a);
    m_data.push_back(std::vector<float>(m_n*count, 0.0f));
    return a;
}
ParticleIndex ParticlesDataMutable::addParticle()
{
    ++m_n;
    for(size_t i = 0; i < m_attrs.size(); ++i) m_data[i].resize(m_n*m_attrs[i].count, 0.0f);
    return m_n - 1;
}
void ParticlesDataMutable::save(const ParticlesData& p0, const char* f)
{
    const ParticlesDataMutable& p = static_cast<const ParticlesDataMutable&>(p0);
    FILE* o = fopen(f, "wb");
    if(!o) return;
    fprintf(o, "PARTIOSTUB %zu %zu\n", p.m_n, p.m_attrs.size());
    for(size_t i = 0; i < p.m_attrs.size(); ++i)
        fprintf(o, "%d %d %s\n", (int)p.m_attrs[i].type, p.m_attrs[i].count, p.m_attrs[i].name.c_str());
    for(size_t i = 0; i < p.m_attrs.size(); ++i)
        if(!p.m_data[i].empty()) fwrite(&p.m_data[i][0], sizeof(float), p.m_data[i].size(), o);
    fclose(o);
}
ParticlesDataMutable* ParticlesDataMutable::load(const char* f)
{
    FILE* in = fopen(f, "rb");
    if(!in) return 0;
    size_t n = 0, na = 0;
    if(fscanf(in, "PARTIOSTUB %zu %zu", &n, &na) != 2 || na > 1000 || n > 100000000) { fclose(in); return 0; }
    fgetc(in);
    ParticlesDataMutable* p = new ParticlesDataMutable();
    for(size_t i = 0; i < na; ++i)
    {
        char buf[600]; int t = 0, c = 0, off = 0;
        if(!fgets(buf, sizeof(buf), in) || sscanf(buf, "%d %d %n", &t, &c, &off) < 2) { fclose(in); delete p; return 0; }
        std::string nm(buf + off); while(!nm.empty() && nm[nm.size()-1] == '\n') nm.erase(nm.size()-1);
        p->addAttribute(nm.c_str(), (ParticleAttributeType)t, c);
    }
    p->m_n = n;
    for(size_t i = 0; i < na; ++i)
    {
        p->m_data[i].assign(n*p->m_attrs[i].count, 0.0f);
        if(!p->m_data[i].empty() && fread(&p->m_data[i][0], sizeof(float), p->m_data[i].size(), in) != p->m_data[i].size())
            { fclose(in); delete p; return 0; }
    }
    fclose(in);
    return p;
}
ParticlesDataMutable* create() { return new ParticlesDataMutable(); }
ParticlesDataMutable* read(const char* f, bool) { return ParticlesDataMutable::load(f); }
void write(const char* f, const ParticlesData& p, bool) { ParticlesDataMutable::save(p, f); }
}
