// registered fields (fields that live in a database and have old-time levels) for the harnesses
#pragma once
#include "fv.hpp"
#include "NeoFOAM/core/database/fieldCollection.hpp"
#include "NeoFOAM/core/database/oldTimeCollection.hpp"
template<class T> struct RegField
{
    std::string name;
    const UnstructuredMesh& mesh;
    std::vector<T> v;
    Document operator()(Database& db)
    {
        Field<T> f = mk(mesh.exec(), v);
        DomainField<T> d(mesh.exec(), f, mesh.boundaryMesh().offset());
        VolumeField<T> vf(mesh.exec(), name, mesh, d, fvcc::createCalculatedBCs<VolumeBoundary<T>>(mesh), db, "", "");
        return Document({{"name", vf.name}, {"timeIndex", std::int64_t(1)}, {"iterationIndex", std::int64_t(0)}, {"subCycleIndex", std::int64_t(0)}, {"field", vf}},
            fvcc::validateFieldDoc);
    }
};
template<class T> VolumeField<T>& registerField(fvcc::FieldCollection& fc, const std::string& n, const UnstructuredMesh& um, const std::vector<T>& v)
{
    return fc.registerField<VolumeField<T>>(RegField<T> {n, um, v});
}
