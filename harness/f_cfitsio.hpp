// Wraps the functions of CFITSIO called by vif (list made from fitsio.h): observes which errors of the storage CFITSIO does not report to its caller
#ifndef F_CFITSIO_HPP
#define F_CFITSIO_HPP
#include <fitsio.h>
namespace cf {
    static const char* ignored = nullptr; // function that returned a success after the storage failed
    struct inside_t { int depth; uint64_t fired; bool ignored; };
    static inside_t* inside = nullptr;    // shared with the simulated process
    inline void start() { inside = sim::shared<inside_t>(); ignored = nullptr; }
    // The process died in CFITSIO, in a call during which the storage failed, or after CFITSIO ignored an error with the same file
    inline bool died_inside(const sim::outcome& r) { return r.kind == sim::outcome::signaled && inside->depth && (inside->ignored || sim::disk::fired_any() != inside->fired); }
    struct watch {
        uint64_t f, l;
        watch() : f(sim::disk::fired_any()), l(sim::disk::lost_flush()) { if (inside) { ++inside->depth; inside->fired = f; inside->ignored = ignored; } }
        int operator()(const char* n, int r) const {
            if (inside) --inside->depth;
            if (r != 0) sim::trace("%s() = %d", n, r);
            // (a keyword or a column that could not be read "does not exist")
            if ((r == 0 || r == KEY_NO_EXIST || r == COL_NOT_FOUND) && (sim::disk::fired_any() != f || sim::disk::lost_flush() != l)) { sim::trace("%s() ignores the error", n); if (!ignored) ignored = n; }
            return r;
        }
    };
}
#define CFW(n, ...) ({ cf::watch w_; w_(#n, n(__VA_ARGS__)); })
#define ffasfm(...) CFW((ffasfm), __VA_ARGS__)
#define ffbinr(...) CFW((ffbinr), __VA_ARGS__)
#define ffbins(...) CFW((ffbins), __VA_ARGS__)
#define ffbnfm(...) CFW((ffbnfm), __VA_ARGS__)
#define ffbnfmll(...) CFW((ffbnfmll), __VA_ARGS__)
#define ffcalc(...) CFW((ffcalc), __VA_ARGS__)
#define ffcalc_rng(...) CFW((ffcalc_rng), __VA_ARGS__)
#define ffccls(...) CFW((ffccls), __VA_ARGS__)
#define ffcdfl(...) CFW((ffcdfl), __VA_ARGS__)
#define ffchfl(...) CFW((ffchfl), __VA_ARGS__)
#define ffclos(...) CFW((ffclos), __VA_ARGS__)
#define ffcmph(...) CFW((ffcmph), __VA_ARGS__)
#define ffcnvthdr2str(...) CFW((ffcnvthdr2str), __VA_ARGS__)
#define ffcopy(...) CFW((ffcopy), __VA_ARGS__)
#define ffcpcl(...) CFW((ffcpcl), __VA_ARGS__)
#define ffcpdt(...) CFW((ffcpdt), __VA_ARGS__)
#define ffcpfl(...) CFW((ffcpfl), __VA_ARGS__)
#define ffcphd(...) CFW((ffcphd), __VA_ARGS__)
#define ffcpht(...) CFW((ffcpht), __VA_ARGS__)
#define ffcpky(...) CFW((ffcpky), __VA_ARGS__)
#define ffcprw(...) CFW((ffcprw), __VA_ARGS__)
#define ffcpsr(...) CFW((ffcpsr), __VA_ARGS__)
#define ffcrhd(...) CFW((ffcrhd), __VA_ARGS__)
#define ffcrim(...) CFW((ffcrim), __VA_ARGS__)
#define ffcrimll(...) CFW((ffcrimll), __VA_ARGS__)
#define ffcrow(...) CFW((ffcrow), __VA_ARGS__)
#define ffcrtb(...) CFW((ffcrtb), __VA_ARGS__)
#define ffcsum(...) CFW((ffcsum), __VA_ARGS__)
#define ffdcol(...) CFW((ffdcol), __VA_ARGS__)
#define ffdelt(...) CFW((ffdelt), __VA_ARGS__)
#define ffdhdu(...) CFW((ffdhdu), __VA_ARGS__)
#define ffdkey(...) CFW((ffdkey), __VA_ARGS__)
#define ffdkinit(...) CFW((ffdkinit), __VA_ARGS__)
#define ffdkopn(...) CFW((ffdkopn), __VA_ARGS__)
#define ffdopn(...) CFW((ffdopn), __VA_ARGS__)
#define ffdrec(...) CFW((ffdrec), __VA_ARGS__)
#define ffdrow(...) CFW((ffdrow), __VA_ARGS__)
#define ffdrrg(...) CFW((ffdrrg), __VA_ARGS__)
#define ffdrws(...) CFW((ffdrws), __VA_ARGS__)
#define ffdrwsll(...) CFW((ffdrwsll), __VA_ARGS__)
#define ffdstr(...) CFW((ffdstr), __VA_ARGS__)
#define ffdt2s(...) CFW((ffdt2s), __VA_ARGS__)
#define ffdtdm(...) CFW((ffdtdm), __VA_ARGS__)
#define ffdtdmll(...) CFW((ffdtdmll), __VA_ARGS__)
#define ffdtyp(...) CFW((ffdtyp), __VA_ARGS__)
#define ffeopn(...) CFW((ffeopn), __VA_ARGS__)
#define ffeqty(...) CFW((ffeqty), __VA_ARGS__)
#define ffeqtyll(...) CFW((ffeqtyll), __VA_ARGS__)
#define ffexist(...) CFW((ffexist), __VA_ARGS__)
#define ffextn(...) CFW((ffextn), __VA_ARGS__)
#define ffexts(...) CFW((ffexts), __VA_ARGS__)
#define ffffrw(...) CFW((ffffrw), __VA_ARGS__)
#define fffkls(...) CFW((fffkls), __VA_ARGS__)
#define ffflmd(...) CFW((ffflmd), __VA_ARGS__)
#define ffflnm(...) CFW((ffflnm), __VA_ARGS__)
#define ffflsh(...) CFW((ffflsh), __VA_ARGS__)
#define ffflus(...) CFW((ffflus), __VA_ARGS__)
#define fffree(...) CFW((fffree), __VA_ARGS__)
#define fffrow(...) CFW((fffrow), __VA_ARGS__)
#define fffrwc(...) CFW((fffrwc), __VA_ARGS__)
#define ffg2db(...) CFW((ffg2db), __VA_ARGS__)
#define ffg2dd(...) CFW((ffg2dd), __VA_ARGS__)
#define ffg2de(...) CFW((ffg2de), __VA_ARGS__)
#define ffg2di(...) CFW((ffg2di), __VA_ARGS__)
#define ffg2dj(...) CFW((ffg2dj), __VA_ARGS__)
#define ffg2djj(...) CFW((ffg2djj), __VA_ARGS__)
#define ffg2dk(...) CFW((ffg2dk), __VA_ARGS__)
#define ffg2dsb(...) CFW((ffg2dsb), __VA_ARGS__)
#define ffg2dui(...) CFW((ffg2dui), __VA_ARGS__)
#define ffg2duj(...) CFW((ffg2duj), __VA_ARGS__)
#define ffg2dujj(...) CFW((ffg2dujj), __VA_ARGS__)
#define ffg2duk(...) CFW((ffg2duk), __VA_ARGS__)
#define ffg3db(...) CFW((ffg3db), __VA_ARGS__)
#define ffg3dd(...) CFW((ffg3dd), __VA_ARGS__)
#define ffg3de(...) CFW((ffg3de), __VA_ARGS__)
#define ffg3di(...) CFW((ffg3di), __VA_ARGS__)
#define ffg3dj(...) CFW((ffg3dj), __VA_ARGS__)
#define ffg3djj(...) CFW((ffg3djj), __VA_ARGS__)
#define ffg3dk(...) CFW((ffg3dk), __VA_ARGS__)
#define ffg3dsb(...) CFW((ffg3dsb), __VA_ARGS__)
#define ffg3dui(...) CFW((ffg3dui), __VA_ARGS__)
#define ffg3duj(...) CFW((ffg3duj), __VA_ARGS__)
#define ffg3dujj(...) CFW((ffg3dujj), __VA_ARGS__)
#define ffg3duk(...) CFW((ffg3duk), __VA_ARGS__)
#define ffgabc(...) CFW((ffgabc), __VA_ARGS__)
#define ffgacl(...) CFW((ffgacl), __VA_ARGS__)
#define ffgbcl(...) CFW((ffgbcl), __VA_ARGS__)
#define ffgbclll(...) CFW((ffgbclll), __VA_ARGS__)
#define ffgcdw(...) CFW((ffgcdw), __VA_ARGS__)
#define ffgcf(...) CFW((ffgcf), __VA_ARGS__)
#define ffgcfb(...) CFW((ffgcfb), __VA_ARGS__)
#define ffgcfc(...) CFW((ffgcfc), __VA_ARGS__)
#define ffgcfd(...) CFW((ffgcfd), __VA_ARGS__)
#define ffgcfe(...) CFW((ffgcfe), __VA_ARGS__)
#define ffgcfi(...) CFW((ffgcfi), __VA_ARGS__)
#define ffgcfj(...) CFW((ffgcfj), __VA_ARGS__)
#define ffgcfjj(...) CFW((ffgcfjj), __VA_ARGS__)
#define ffgcfk(...) CFW((ffgcfk), __VA_ARGS__)
#define ffgcfl(...) CFW((ffgcfl), __VA_ARGS__)
#define ffgcfm(...) CFW((ffgcfm), __VA_ARGS__)
#define ffgcfs(...) CFW((ffgcfs), __VA_ARGS__)
#define ffgcfsb(...) CFW((ffgcfsb), __VA_ARGS__)
#define ffgcfui(...) CFW((ffgcfui), __VA_ARGS__)
#define ffgcfuj(...) CFW((ffgcfuj), __VA_ARGS__)
#define ffgcfujj(...) CFW((ffgcfujj), __VA_ARGS__)
#define ffgcfuk(...) CFW((ffgcfuk), __VA_ARGS__)
#define ffgcks(...) CFW((ffgcks), __VA_ARGS__)
#define ffgcl(...) CFW((ffgcl), __VA_ARGS__)
#define ffgcnn(...) CFW((ffgcnn), __VA_ARGS__)
#define ffgcno(...) CFW((ffgcno), __VA_ARGS__)
#define ffgcrd(...) CFW((ffgcrd), __VA_ARGS__)
#define ffgcv(...) CFW((ffgcv), __VA_ARGS__)
#define ffgcvb(...) CFW((ffgcvb), __VA_ARGS__)
#define ffgcvc(...) CFW((ffgcvc), __VA_ARGS__)
#define ffgcvd(...) CFW((ffgcvd), __VA_ARGS__)
#define ffgcve(...) CFW((ffgcve), __VA_ARGS__)
#define ffgcvi(...) CFW((ffgcvi), __VA_ARGS__)
#define ffgcvj(...) CFW((ffgcvj), __VA_ARGS__)
#define ffgcvjj(...) CFW((ffgcvjj), __VA_ARGS__)
#define ffgcvk(...) CFW((ffgcvk), __VA_ARGS__)
#define ffgcvl(...) CFW((ffgcvl), __VA_ARGS__)
#define ffgcvm(...) CFW((ffgcvm), __VA_ARGS__)
#define ffgcvn(...) CFW((ffgcvn), __VA_ARGS__)
#define ffgcvs(...) CFW((ffgcvs), __VA_ARGS__)
#define ffgcvsb(...) CFW((ffgcvsb), __VA_ARGS__)
#define ffgcvui(...) CFW((ffgcvui), __VA_ARGS__)
#define ffgcvuj(...) CFW((ffgcvuj), __VA_ARGS__)
#define ffgcvujj(...) CFW((ffgcvujj), __VA_ARGS__)
#define ffgcvuk(...) CFW((ffgcvuk), __VA_ARGS__)
#define ffgcx(...) CFW((ffgcx), __VA_ARGS__)
#define ffgcxui(...) CFW((ffgcxui), __VA_ARGS__)
#define ffgcxuk(...) CFW((ffgcxuk), __VA_ARGS__)
#define ffgdes(...) CFW((ffgdes), __VA_ARGS__)
#define ffgdesll(...) CFW((ffgdesll), __VA_ARGS__)
#define ffgdess(...) CFW((ffgdess), __VA_ARGS__)
#define ffgdessll(...) CFW((ffgdessll), __VA_ARGS__)
#define ffgextn(...) CFW((ffgextn), __VA_ARGS__)
#define ffggpb(...) CFW((ffggpb), __VA_ARGS__)
#define ffggpd(...) CFW((ffggpd), __VA_ARGS__)
#define ffggpe(...) CFW((ffggpe), __VA_ARGS__)
#define ffggpi(...) CFW((ffggpi), __VA_ARGS__)
#define ffggpj(...) CFW((ffggpj), __VA_ARGS__)
#define ffggpjj(...) CFW((ffggpjj), __VA_ARGS__)
#define ffggpk(...) CFW((ffggpk), __VA_ARGS__)
#define ffggpsb(...) CFW((ffggpsb), __VA_ARGS__)
#define ffggpui(...) CFW((ffggpui), __VA_ARGS__)
#define ffggpuj(...) CFW((ffggpuj), __VA_ARGS__)
#define ffggpujj(...) CFW((ffggpujj), __VA_ARGS__)
#define ffggpuk(...) CFW((ffggpuk), __VA_ARGS__)
#define ffghad(...) CFW((ffghad), __VA_ARGS__)
#define ffghadll(...) CFW((ffghadll), __VA_ARGS__)
#define ffghbn(...) CFW((ffghbn), __VA_ARGS__)
#define ffghbnll(...) CFW((ffghbnll), __VA_ARGS__)
#define ffghdn(...) CFW((ffghdn), __VA_ARGS__)
#define ffghdt(...) CFW((ffghdt), __VA_ARGS__)
#define ffghof(...) CFW((ffghof), __VA_ARGS__)
#define ffghpr(...) CFW((ffghpr), __VA_ARGS__)
#define ffghprll(...) CFW((ffghprll), __VA_ARGS__)
#define ffghps(...) CFW((ffghps), __VA_ARGS__)
#define ffghsp(...) CFW((ffghsp), __VA_ARGS__)
#define ffghtb(...) CFW((ffghtb), __VA_ARGS__)
#define ffghtbll(...) CFW((ffghtbll), __VA_ARGS__)
#define ffgics(...) CFW((ffgics), __VA_ARGS__)
#define ffgicsa(...) CFW((ffgicsa), __VA_ARGS__)
#define ffgidm(...) CFW((ffgidm), __VA_ARGS__)
#define ffgidt(...) CFW((ffgidt), __VA_ARGS__)
#define ffgiet(...) CFW((ffgiet), __VA_ARGS__)
#define ffgipr(...) CFW((ffgipr), __VA_ARGS__)
#define ffgiprll(...) CFW((ffgiprll), __VA_ARGS__)
#define ffgisz(...) CFW((ffgisz), __VA_ARGS__)
#define ffgiszll(...) CFW((ffgiszll), __VA_ARGS__)
#define ffgiwcs(...) CFW((ffgiwcs), __VA_ARGS__)
#define ffgkcl(...) CFW((ffgkcl), __VA_ARGS__)
#define ffgkcsl(...) CFW((ffgkcsl), __VA_ARGS__)
#define ffgkey(...) CFW((ffgkey), __VA_ARGS__)
#define ffgkls(...) CFW((ffgkls), __VA_ARGS__)
#define ffgknd(...) CFW((ffgknd), __VA_ARGS__)
#define ffgkne(...) CFW((ffgkne), __VA_ARGS__)
#define ffgknj(...) CFW((ffgknj), __VA_ARGS__)
#define ffgknjj(...) CFW((ffgknjj), __VA_ARGS__)
#define ffgknl(...) CFW((ffgknl), __VA_ARGS__)
#define ffgknm(...) CFW((ffgknm), __VA_ARGS__)
#define ffgkns(...) CFW((ffgkns), __VA_ARGS__)
#define ffgksl(...) CFW((ffgksl), __VA_ARGS__)
#define ffgky(...) CFW((ffgky), __VA_ARGS__)
#define ffgkyc(...) CFW((ffgkyc), __VA_ARGS__)
#define ffgkyd(...) CFW((ffgkyd), __VA_ARGS__)
#define ffgkye(...) CFW((ffgkye), __VA_ARGS__)
#define ffgkyj(...) CFW((ffgkyj), __VA_ARGS__)
#define ffgkyjj(...) CFW((ffgkyjj), __VA_ARGS__)
#define ffgkyl(...) CFW((ffgkyl), __VA_ARGS__)
#define ffgkym(...) CFW((ffgkym), __VA_ARGS__)
#define ffgkyn(...) CFW((ffgkyn), __VA_ARGS__)
#define ffgkys(...) CFW((ffgkys), __VA_ARGS__)
#define ffgkyt(...) CFW((ffgkyt), __VA_ARGS__)
#define ffgkyujj(...) CFW((ffgkyujj), __VA_ARGS__)
#define ffgmcp(...) CFW((ffgmcp), __VA_ARGS__)
#define ffgmng(...) CFW((ffgmng), __VA_ARGS__)
#define ffgmop(...) CFW((ffgmop), __VA_ARGS__)
#define ffgmrm(...) CFW((ffgmrm), __VA_ARGS__)
#define ffgmsg(...) CFW((ffgmsg), __VA_ARGS__)
#define ffgmtf(...) CFW((ffgmtf), __VA_ARGS__)
#define ffgncl(...) CFW((ffgncl), __VA_ARGS__)
#define ffgnrw(...) CFW((ffgnrw), __VA_ARGS__)
#define ffgnrwll(...) CFW((ffgnrwll), __VA_ARGS__)
#define ffgnxk(...) CFW((ffgnxk), __VA_ARGS__)
#define ffgpf(...) CFW((ffgpf), __VA_ARGS__)
#define ffgpfb(...) CFW((ffgpfb), __VA_ARGS__)
#define ffgpfd(...) CFW((ffgpfd), __VA_ARGS__)
#define ffgpfe(...) CFW((ffgpfe), __VA_ARGS__)
#define ffgpfi(...) CFW((ffgpfi), __VA_ARGS__)
#define ffgpfj(...) CFW((ffgpfj), __VA_ARGS__)
#define ffgpfjj(...) CFW((ffgpfjj), __VA_ARGS__)
#define ffgpfk(...) CFW((ffgpfk), __VA_ARGS__)
#define ffgpfsb(...) CFW((ffgpfsb), __VA_ARGS__)
#define ffgpfui(...) CFW((ffgpfui), __VA_ARGS__)
#define ffgpfuj(...) CFW((ffgpfuj), __VA_ARGS__)
#define ffgpfujj(...) CFW((ffgpfujj), __VA_ARGS__)
#define ffgpfuk(...) CFW((ffgpfuk), __VA_ARGS__)
#define ffgpv(...) CFW((ffgpv), __VA_ARGS__)
#define ffgpvb(...) CFW((ffgpvb), __VA_ARGS__)
#define ffgpvd(...) CFW((ffgpvd), __VA_ARGS__)
#define ffgpve(...) CFW((ffgpve), __VA_ARGS__)
#define ffgpvi(...) CFW((ffgpvi), __VA_ARGS__)
#define ffgpvj(...) CFW((ffgpvj), __VA_ARGS__)
#define ffgpvjj(...) CFW((ffgpvjj), __VA_ARGS__)
#define ffgpvk(...) CFW((ffgpvk), __VA_ARGS__)
#define ffgpvsb(...) CFW((ffgpvsb), __VA_ARGS__)
#define ffgpvui(...) CFW((ffgpvui), __VA_ARGS__)
#define ffgpvuj(...) CFW((ffgpvuj), __VA_ARGS__)
#define ffgpvujj(...) CFW((ffgpvujj), __VA_ARGS__)
#define ffgpvuk(...) CFW((ffgpvuk), __VA_ARGS__)
#define ffgpxf(...) CFW((ffgpxf), __VA_ARGS__)
#define ffgpxfll(...) CFW((ffgpxfll), __VA_ARGS__)
#define ffgpxv(...) CFW((ffgpxv), __VA_ARGS__)
#define ffgpxvll(...) CFW((ffgpxvll), __VA_ARGS__)
#define ffgrec(...) CFW((ffgrec), __VA_ARGS__)
#define ffgrsz(...) CFW((ffgrsz), __VA_ARGS__)
#define ffgsdt(...) CFW((ffgsdt), __VA_ARGS__)
#define ffgsfb(...) CFW((ffgsfb), __VA_ARGS__)
#define ffgsfd(...) CFW((ffgsfd), __VA_ARGS__)
#define ffgsfe(...) CFW((ffgsfe), __VA_ARGS__)
#define ffgsfi(...) CFW((ffgsfi), __VA_ARGS__)
#define ffgsfj(...) CFW((ffgsfj), __VA_ARGS__)
#define ffgsfjj(...) CFW((ffgsfjj), __VA_ARGS__)
#define ffgsfk(...) CFW((ffgsfk), __VA_ARGS__)
#define ffgsfsb(...) CFW((ffgsfsb), __VA_ARGS__)
#define ffgsfui(...) CFW((ffgsfui), __VA_ARGS__)
#define ffgsfuj(...) CFW((ffgsfuj), __VA_ARGS__)
#define ffgsfujj(...) CFW((ffgsfujj), __VA_ARGS__)
#define ffgsfuk(...) CFW((ffgsfuk), __VA_ARGS__)
#define ffgsky(...) CFW((ffgsky), __VA_ARGS__)
#define ffgskyc(...) CFW((ffgskyc), __VA_ARGS__)
#define ffgstm(...) CFW((ffgstm), __VA_ARGS__)
#define ffgstr(...) CFW((ffgstr), __VA_ARGS__)
#define ffgsv(...) CFW((ffgsv), __VA_ARGS__)
#define ffgsvb(...) CFW((ffgsvb), __VA_ARGS__)
#define ffgsvd(...) CFW((ffgsvd), __VA_ARGS__)
#define ffgsve(...) CFW((ffgsve), __VA_ARGS__)
#define ffgsvi(...) CFW((ffgsvi), __VA_ARGS__)
#define ffgsvj(...) CFW((ffgsvj), __VA_ARGS__)
#define ffgsvjj(...) CFW((ffgsvjj), __VA_ARGS__)
#define ffgsvk(...) CFW((ffgsvk), __VA_ARGS__)
#define ffgsvsb(...) CFW((ffgsvsb), __VA_ARGS__)
#define ffgsvui(...) CFW((ffgsvui), __VA_ARGS__)
#define ffgsvuj(...) CFW((ffgsvuj), __VA_ARGS__)
#define ffgsvujj(...) CFW((ffgsvujj), __VA_ARGS__)
#define ffgsvuk(...) CFW((ffgsvuk), __VA_ARGS__)
#define ffgtam(...) CFW((ffgtam), __VA_ARGS__)
#define ffgtbb(...) CFW((ffgtbb), __VA_ARGS__)
#define ffgtch(...) CFW((ffgtch), __VA_ARGS__)
#define ffgtcl(...) CFW((ffgtcl), __VA_ARGS__)
#define ffgtclll(...) CFW((ffgtclll), __VA_ARGS__)
#define ffgtcm(...) CFW((ffgtcm), __VA_ARGS__)
#define ffgtcp(...) CFW((ffgtcp), __VA_ARGS__)
#define ffgtcr(...) CFW((ffgtcr), __VA_ARGS__)
#define ffgtcs(...) CFW((ffgtcs), __VA_ARGS__)
#define ffgtdm(...) CFW((ffgtdm), __VA_ARGS__)
#define ffgtdmll(...) CFW((ffgtdmll), __VA_ARGS__)
#define ffgthd(...) CFW((ffgthd), __VA_ARGS__)
#define ffgtis(...) CFW((ffgtis), __VA_ARGS__)
#define ffgtmg(...) CFW((ffgtmg), __VA_ARGS__)
#define ffgtmo(...) CFW((ffgtmo), __VA_ARGS__)
#define ffgtnm(...) CFW((ffgtnm), __VA_ARGS__)
#define ffgtop(...) CFW((ffgtop), __VA_ARGS__)
#define ffgtrm(...) CFW((ffgtrm), __VA_ARGS__)
#define ffgtvf(...) CFW((ffgtvf), __VA_ARGS__)
#define ffgtwcs(...) CFW((ffgtwcs), __VA_ARGS__)
#define ffgunt(...) CFW((ffgunt), __VA_ARGS__)
#define ffh2st(...) CFW((ffh2st), __VA_ARGS__)
#define ffhdef(...) CFW((ffhdef), __VA_ARGS__)
#define ffhdr2str(...) CFW((ffhdr2str), __VA_ARGS__)
#define ffhist(...) CFW((ffhist), __VA_ARGS__)
#define ffhist2(...) CFW((ffhist2), __VA_ARGS__)
#define ffibin(...) CFW((ffibin), __VA_ARGS__)
#define fficls(...) CFW((fficls), __VA_ARGS__)
#define fficol(...) CFW((fficol), __VA_ARGS__)
#define ffifile(...) CFW((ffifile), __VA_ARGS__)
#define ffifile2(...) CFW((ffifile2), __VA_ARGS__)
#define ffiimg(...) CFW((ffiimg), __VA_ARGS__)
#define ffiimgll(...) CFW((ffiimgll), __VA_ARGS__)
#define ffikey(...) CFW((ffikey), __VA_ARGS__)
#define ffikfc(...) CFW((ffikfc), __VA_ARGS__)
#define ffikfm(...) CFW((ffikfm), __VA_ARGS__)
#define ffikls(...) CFW((ffikls), __VA_ARGS__)
#define ffikyc(...) CFW((ffikyc), __VA_ARGS__)
#define ffikyd(...) CFW((ffikyd), __VA_ARGS__)
#define ffikye(...) CFW((ffikye), __VA_ARGS__)
#define ffikyf(...) CFW((ffikyf), __VA_ARGS__)
#define ffikyg(...) CFW((ffikyg), __VA_ARGS__)
#define ffikyj(...) CFW((ffikyj), __VA_ARGS__)
#define ffikyl(...) CFW((ffikyl), __VA_ARGS__)
#define ffikym(...) CFW((ffikym), __VA_ARGS__)
#define ffikys(...) CFW((ffikys), __VA_ARGS__)
#define ffikyu(...) CFW((ffikyu), __VA_ARGS__)
#define ffimem(...) CFW((ffimem), __VA_ARGS__)
#define ffimport_file(...) CFW((ffimport_file), __VA_ARGS__)
#define ffinit(...) CFW((ffinit), __VA_ARGS__)
#define ffinttyp(...) CFW((ffinttyp), __VA_ARGS__)
#define ffiopn(...) CFW((ffiopn), __VA_ARGS__)
#define ffirec(...) CFW((ffirec), __VA_ARGS__)
#define ffirow(...) CFW((ffirow), __VA_ARGS__)
#define ffitab(...) CFW((ffitab), __VA_ARGS__)
#define ffiter(...) CFW((ffiter), __VA_ARGS__)
#define ffiurl(...) CFW((ffiurl), __VA_ARGS__)
#define ffkeyn(...) CFW((ffkeyn), __VA_ARGS__)
#define ffmahd(...) CFW((ffmahd), __VA_ARGS__)
#define ffmaky(...) CFW((ffmaky), __VA_ARGS__)
#define ffmbyt(...) CFW((ffmbyt), __VA_ARGS__)
#define ffmcom(...) CFW((ffmcom), __VA_ARGS__)
#define ffmcrd(...) CFW((ffmcrd), __VA_ARGS__)
#define ffmkfc(...) CFW((ffmkfc), __VA_ARGS__)
#define ffmkfm(...) CFW((ffmkfm), __VA_ARGS__)
#define ffmkky(...) CFW((ffmkky), __VA_ARGS__)
#define ffmkls(...) CFW((ffmkls), __VA_ARGS__)
#define ffmkyc(...) CFW((ffmkyc), __VA_ARGS__)
#define ffmkyd(...) CFW((ffmkyd), __VA_ARGS__)
#define ffmkye(...) CFW((ffmkye), __VA_ARGS__)
#define ffmkyf(...) CFW((ffmkyf), __VA_ARGS__)
#define ffmkyg(...) CFW((ffmkyg), __VA_ARGS__)
#define ffmkyj(...) CFW((ffmkyj), __VA_ARGS__)
#define ffmkyl(...) CFW((ffmkyl), __VA_ARGS__)
#define ffmkym(...) CFW((ffmkym), __VA_ARGS__)
#define ffmkys(...) CFW((ffmkys), __VA_ARGS__)
#define ffmkyu(...) CFW((ffmkyu), __VA_ARGS__)
#define ffmnam(...) CFW((ffmnam), __VA_ARGS__)
#define ffmnhd(...) CFW((ffmnhd), __VA_ARGS__)
#define ffmrec(...) CFW((ffmrec), __VA_ARGS__)
#define ffmrhd(...) CFW((ffmrhd), __VA_ARGS__)
#define ffmrky(...) CFW((ffmrky), __VA_ARGS__)
#define ffmvec(...) CFW((ffmvec), __VA_ARGS__)
#define ffnchk(...) CFW((ffnchk), __VA_ARGS__)
#define ffnkey(...) CFW((ffnkey), __VA_ARGS__)
#define ffomem(...) CFW((ffomem), __VA_ARGS__)
#define ffopen(...) CFW((ffopen), __VA_ARGS__)
#define ffopentest(...) CFW((ffopentest), __VA_ARGS__)
#define ffp2db(...) CFW((ffp2db), __VA_ARGS__)
#define ffp2dd(...) CFW((ffp2dd), __VA_ARGS__)
#define ffp2de(...) CFW((ffp2de), __VA_ARGS__)
#define ffp2di(...) CFW((ffp2di), __VA_ARGS__)
#define ffp2dj(...) CFW((ffp2dj), __VA_ARGS__)
#define ffp2djj(...) CFW((ffp2djj), __VA_ARGS__)
#define ffp2dk(...) CFW((ffp2dk), __VA_ARGS__)
#define ffp2dsb(...) CFW((ffp2dsb), __VA_ARGS__)
#define ffp2dui(...) CFW((ffp2dui), __VA_ARGS__)
#define ffp2duj(...) CFW((ffp2duj), __VA_ARGS__)
#define ffp2dujj(...) CFW((ffp2dujj), __VA_ARGS__)
#define ffp2duk(...) CFW((ffp2duk), __VA_ARGS__)
#define ffp3db(...) CFW((ffp3db), __VA_ARGS__)
#define ffp3dd(...) CFW((ffp3dd), __VA_ARGS__)
#define ffp3de(...) CFW((ffp3de), __VA_ARGS__)
#define ffp3di(...) CFW((ffp3di), __VA_ARGS__)
#define ffp3dj(...) CFW((ffp3dj), __VA_ARGS__)
#define ffp3djj(...) CFW((ffp3djj), __VA_ARGS__)
#define ffp3dk(...) CFW((ffp3dk), __VA_ARGS__)
#define ffp3dsb(...) CFW((ffp3dsb), __VA_ARGS__)
#define ffp3dui(...) CFW((ffp3dui), __VA_ARGS__)
#define ffp3duj(...) CFW((ffp3duj), __VA_ARGS__)
#define ffp3dujj(...) CFW((ffp3dujj), __VA_ARGS__)
#define ffp3duk(...) CFW((ffp3duk), __VA_ARGS__)
#define ffpcks(...) CFW((ffpcks), __VA_ARGS__)
#define ffpcl(...) CFW((ffpcl), __VA_ARGS__)
#define ffpclb(...) CFW((ffpclb), __VA_ARGS__)
#define ffpclc(...) CFW((ffpclc), __VA_ARGS__)
#define ffpcld(...) CFW((ffpcld), __VA_ARGS__)
#define ffpcle(...) CFW((ffpcle), __VA_ARGS__)
#define ffpcli(...) CFW((ffpcli), __VA_ARGS__)
#define ffpclj(...) CFW((ffpclj), __VA_ARGS__)
#define ffpcljj(...) CFW((ffpcljj), __VA_ARGS__)
#define ffpclk(...) CFW((ffpclk), __VA_ARGS__)
#define ffpcll(...) CFW((ffpcll), __VA_ARGS__)
#define ffpclm(...) CFW((ffpclm), __VA_ARGS__)
#define ffpcln(...) CFW((ffpcln), __VA_ARGS__)
#define ffpcls(...) CFW((ffpcls), __VA_ARGS__)
#define ffpclsb(...) CFW((ffpclsb), __VA_ARGS__)
#define ffpclu(...) CFW((ffpclu), __VA_ARGS__)
#define ffpclui(...) CFW((ffpclui), __VA_ARGS__)
#define ffpcluj(...) CFW((ffpcluj), __VA_ARGS__)
#define ffpclujj(...) CFW((ffpclujj), __VA_ARGS__)
#define ffpcluk(...) CFW((ffpcluk), __VA_ARGS__)
#define ffpclx(...) CFW((ffpclx), __VA_ARGS__)
#define ffpcn(...) CFW((ffpcn), __VA_ARGS__)
#define ffpcnb(...) CFW((ffpcnb), __VA_ARGS__)
#define ffpcnd(...) CFW((ffpcnd), __VA_ARGS__)
#define ffpcne(...) CFW((ffpcne), __VA_ARGS__)
#define ffpcni(...) CFW((ffpcni), __VA_ARGS__)
#define ffpcnj(...) CFW((ffpcnj), __VA_ARGS__)
#define ffpcnjj(...) CFW((ffpcnjj), __VA_ARGS__)
#define ffpcnk(...) CFW((ffpcnk), __VA_ARGS__)
#define ffpcnl(...) CFW((ffpcnl), __VA_ARGS__)
#define ffpcns(...) CFW((ffpcns), __VA_ARGS__)
#define ffpcnsb(...) CFW((ffpcnsb), __VA_ARGS__)
#define ffpcnui(...) CFW((ffpcnui), __VA_ARGS__)
#define ffpcnuj(...) CFW((ffpcnuj), __VA_ARGS__)
#define ffpcnujj(...) CFW((ffpcnujj), __VA_ARGS__)
#define ffpcnuk(...) CFW((ffpcnuk), __VA_ARGS__)
#define ffpcom(...) CFW((ffpcom), __VA_ARGS__)
#define ffpdat(...) CFW((ffpdat), __VA_ARGS__)
#define ffpdes(...) CFW((ffpdes), __VA_ARGS__)
#define ffpextn(...) CFW((ffpextn), __VA_ARGS__)
#define ffpgpb(...) CFW((ffpgpb), __VA_ARGS__)
#define ffpgpd(...) CFW((ffpgpd), __VA_ARGS__)
#define ffpgpe(...) CFW((ffpgpe), __VA_ARGS__)
#define ffpgpi(...) CFW((ffpgpi), __VA_ARGS__)
#define ffpgpj(...) CFW((ffpgpj), __VA_ARGS__)
#define ffpgpjj(...) CFW((ffpgpjj), __VA_ARGS__)
#define ffpgpk(...) CFW((ffpgpk), __VA_ARGS__)
#define ffpgpsb(...) CFW((ffpgpsb), __VA_ARGS__)
#define ffpgpui(...) CFW((ffpgpui), __VA_ARGS__)
#define ffpgpuj(...) CFW((ffpgpuj), __VA_ARGS__)
#define ffpgpujj(...) CFW((ffpgpujj), __VA_ARGS__)
#define ffpgpuk(...) CFW((ffpgpuk), __VA_ARGS__)
#define ffphbn(...) CFW((ffphbn), __VA_ARGS__)
#define ffphext(...) CFW((ffphext), __VA_ARGS__)
#define ffphis(...) CFW((ffphis), __VA_ARGS__)
#define ffphpr(...) CFW((ffphpr), __VA_ARGS__)
#define ffphprll(...) CFW((ffphprll), __VA_ARGS__)
#define ffphps(...) CFW((ffphps), __VA_ARGS__)
#define ffphpsll(...) CFW((ffphpsll), __VA_ARGS__)
#define ffphtb(...) CFW((ffphtb), __VA_ARGS__)
#define ffpkfc(...) CFW((ffpkfc), __VA_ARGS__)
#define ffpkfm(...) CFW((ffpkfm), __VA_ARGS__)
#define ffpkls(...) CFW((ffpkls), __VA_ARGS__)
#define ffpknd(...) CFW((ffpknd), __VA_ARGS__)
#define ffpkne(...) CFW((ffpkne), __VA_ARGS__)
#define ffpknf(...) CFW((ffpknf), __VA_ARGS__)
#define ffpkng(...) CFW((ffpkng), __VA_ARGS__)
#define ffpknj(...) CFW((ffpknj), __VA_ARGS__)
#define ffpknjj(...) CFW((ffpknjj), __VA_ARGS__)
#define ffpknl(...) CFW((ffpknl), __VA_ARGS__)
#define ffpkns(...) CFW((ffpkns), __VA_ARGS__)
#define ffpktp(...) CFW((ffpktp), __VA_ARGS__)
#define ffpky(...) CFW((ffpky), __VA_ARGS__)
#define ffpkyc(...) CFW((ffpkyc), __VA_ARGS__)
#define ffpkyd(...) CFW((ffpkyd), __VA_ARGS__)
#define ffpkye(...) CFW((ffpkye), __VA_ARGS__)
#define ffpkyf(...) CFW((ffpkyf), __VA_ARGS__)
#define ffpkyg(...) CFW((ffpkyg), __VA_ARGS__)
#define ffpkyj(...) CFW((ffpkyj), __VA_ARGS__)
#define ffpkyl(...) CFW((ffpkyl), __VA_ARGS__)
#define ffpkym(...) CFW((ffpkym), __VA_ARGS__)
#define ffpkys(...) CFW((ffpkys), __VA_ARGS__)
#define ffpkyt(...) CFW((ffpkyt), __VA_ARGS__)
#define ffpkyu(...) CFW((ffpkyu), __VA_ARGS__)
#define ffpkyuj(...) CFW((ffpkyuj), __VA_ARGS__)
#define ffplsw(...) CFW((ffplsw), __VA_ARGS__)
#define ffpnul(...) CFW((ffpnul), __VA_ARGS__)
#define ffppn(...) CFW((ffppn), __VA_ARGS__)
#define ffppnb(...) CFW((ffppnb), __VA_ARGS__)
#define ffppnd(...) CFW((ffppnd), __VA_ARGS__)
#define ffppne(...) CFW((ffppne), __VA_ARGS__)
#define ffppni(...) CFW((ffppni), __VA_ARGS__)
#define ffppnj(...) CFW((ffppnj), __VA_ARGS__)
#define ffppnjj(...) CFW((ffppnjj), __VA_ARGS__)
#define ffppnk(...) CFW((ffppnk), __VA_ARGS__)
#define ffppnsb(...) CFW((ffppnsb), __VA_ARGS__)
#define ffppnui(...) CFW((ffppnui), __VA_ARGS__)
#define ffppnuj(...) CFW((ffppnuj), __VA_ARGS__)
#define ffppnujj(...) CFW((ffppnujj), __VA_ARGS__)
#define ffppnuk(...) CFW((ffppnuk), __VA_ARGS__)
#define ffppr(...) CFW((ffppr), __VA_ARGS__)
#define ffpprb(...) CFW((ffpprb), __VA_ARGS__)
#define ffpprd(...) CFW((ffpprd), __VA_ARGS__)
#define ffppre(...) CFW((ffppre), __VA_ARGS__)
#define ffppri(...) CFW((ffppri), __VA_ARGS__)
#define ffpprj(...) CFW((ffpprj), __VA_ARGS__)
#define ffpprjj(...) CFW((ffpprjj), __VA_ARGS__)
#define ffpprk(...) CFW((ffpprk), __VA_ARGS__)
#define ffpprn(...) CFW((ffpprn), __VA_ARGS__)
#define ffpprsb(...) CFW((ffpprsb), __VA_ARGS__)
#define ffppru(...) CFW((ffppru), __VA_ARGS__)
#define ffpprui(...) CFW((ffpprui), __VA_ARGS__)
#define ffppruj(...) CFW((ffppruj), __VA_ARGS__)
#define ffpprujj(...) CFW((ffpprujj), __VA_ARGS__)
#define ffppruk(...) CFW((ffppruk), __VA_ARGS__)
#define ffppx(...) CFW((ffppx), __VA_ARGS__)
#define ffppxll(...) CFW((ffppxll), __VA_ARGS__)
#define ffppxn(...) CFW((ffppxn), __VA_ARGS__)
#define ffppxnll(...) CFW((ffppxnll), __VA_ARGS__)
#define ffprec(...) CFW((ffprec), __VA_ARGS__)
#define ffprwu(...) CFW((ffprwu), __VA_ARGS__)
#define ffpscl(...) CFW((ffpscl), __VA_ARGS__)
#define ffpss(...) CFW((ffpss), __VA_ARGS__)
#define ffpssb(...) CFW((ffpssb), __VA_ARGS__)
#define ffpssd(...) CFW((ffpssd), __VA_ARGS__)
#define ffpsse(...) CFW((ffpsse), __VA_ARGS__)
#define ffpssi(...) CFW((ffpssi), __VA_ARGS__)
#define ffpssj(...) CFW((ffpssj), __VA_ARGS__)
#define ffpssjj(...) CFW((ffpssjj), __VA_ARGS__)
#define ffpssk(...) CFW((ffpssk), __VA_ARGS__)
#define ffpsssb(...) CFW((ffpsssb), __VA_ARGS__)
#define ffpssui(...) CFW((ffpssui), __VA_ARGS__)
#define ffpssuj(...) CFW((ffpssuj), __VA_ARGS__)
#define ffpssujj(...) CFW((ffpssujj), __VA_ARGS__)
#define ffpssuk(...) CFW((ffpssuk), __VA_ARGS__)
#define ffpsvc(...) CFW((ffpsvc), __VA_ARGS__)
#define ffptbb(...) CFW((ffptbb), __VA_ARGS__)
#define ffptdm(...) CFW((ffptdm), __VA_ARGS__)
#define ffptdmll(...) CFW((ffptdmll), __VA_ARGS__)
#define ffpthp(...) CFW((ffpthp), __VA_ARGS__)
#define ffpunt(...) CFW((ffpunt), __VA_ARGS__)
#define ffrdef(...) CFW((ffrdef), __VA_ARGS__)
#define ffreopen(...) CFW((ffreopen), __VA_ARGS__)
#define ffrhdu(...) CFW((ffrhdu), __VA_ARGS__)
#define ffrsim(...) CFW((ffrsim), __VA_ARGS__)
#define ffrsimll(...) CFW((ffrsimll), __VA_ARGS__)
#define ffrtnm(...) CFW((ffrtnm), __VA_ARGS__)
#define ffrwrg(...) CFW((ffrwrg), __VA_ARGS__)
#define ffrwrgll(...) CFW((ffrwrgll), __VA_ARGS__)
#define ffs2dt(...) CFW((ffs2dt), __VA_ARGS__)
#define ffs2tm(...) CFW((ffs2tm), __VA_ARGS__)
#define ffsnul(...) CFW((ffsnul), __VA_ARGS__)
#define ffsrow(...) CFW((ffsrow), __VA_ARGS__)
#define ffstmo(...) CFW((ffstmo), __VA_ARGS__)
#define fftexp(...) CFW((fftexp), __VA_ARGS__)
#define ffthdu(...) CFW((ffthdu), __VA_ARGS__)
#define fftheap(...) CFW((fftheap), __VA_ARGS__)
#define fftkey(...) CFW((fftkey), __VA_ARGS__)
#define fftm2s(...) CFW((fftm2s), __VA_ARGS__)
#define fftnul(...) CFW((fftnul), __VA_ARGS__)
#define fftopn(...) CFW((fftopn), __VA_ARGS__)
#define fftplt(...) CFW((fftplt), __VA_ARGS__)
#define fftrec(...) CFW((fftrec), __VA_ARGS__)
#define fftscl(...) CFW((fftscl), __VA_ARGS__)
#define ffucrd(...) CFW((ffucrd), __VA_ARGS__)
#define ffukfc(...) CFW((ffukfc), __VA_ARGS__)
#define ffukfm(...) CFW((ffukfm), __VA_ARGS__)
#define ffukls(...) CFW((ffukls), __VA_ARGS__)
#define ffuky(...) CFW((ffuky), __VA_ARGS__)
#define ffukyc(...) CFW((ffukyc), __VA_ARGS__)
#define ffukyd(...) CFW((ffukyd), __VA_ARGS__)
#define ffukye(...) CFW((ffukye), __VA_ARGS__)
#define ffukyf(...) CFW((ffukyf), __VA_ARGS__)
#define ffukyg(...) CFW((ffukyg), __VA_ARGS__)
#define ffukyj(...) CFW((ffukyj), __VA_ARGS__)
#define ffukyl(...) CFW((ffukyl), __VA_ARGS__)
#define ffukym(...) CFW((ffukym), __VA_ARGS__)
#define ffukys(...) CFW((ffukys), __VA_ARGS__)
#define ffukyu(...) CFW((ffukyu), __VA_ARGS__)
#define ffupck(...) CFW((ffupck), __VA_ARGS__)
#define ffurlt(...) CFW((ffurlt), __VA_ARGS__)
#define ffvcks(...) CFW((ffvcks), __VA_ARGS__)
#define ffverifydate(...) CFW((ffverifydate), __VA_ARGS__)
#define ffwldp(...) CFW((ffwldp), __VA_ARGS__)
#define ffwrhdu(...) CFW((ffwrhdu), __VA_ARGS__)
#define ffxypx(...) CFW((ffxypx), __VA_ARGS__)
#define fits_calc_binning(...) CFW((fits_calc_binning), __VA_ARGS__)
#define fits_calc_binningd(...) CFW((fits_calc_binningd), __VA_ARGS__)
#define fits_cleanup_https(...) CFW((fits_cleanup_https), __VA_ARGS__)
#define fits_compress_img(...) CFW((fits_compress_img), __VA_ARGS__)
#define fits_compress_table(...) CFW((fits_compress_table), __VA_ARGS__)
#define fits_copy_cell2image(...) CFW((fits_copy_cell2image), __VA_ARGS__)
#define fits_copy_image2cell(...) CFW((fits_copy_image2cell), __VA_ARGS__)
#define fits_copy_image_section(...) CFW((fits_copy_image_section), __VA_ARGS__)
#define fits_copy_pixlist2image(...) CFW((fits_copy_pixlist2image), __VA_ARGS__)
#define fits_decompress_img(...) CFW((fits_decompress_img), __VA_ARGS__)
#define fits_delete_iraf_file(...) CFW((fits_delete_iraf_file), __VA_ARGS__)
#define fits_execute_template(...) CFW((fits_execute_template), __VA_ARGS__)
#define fits_get_compression_type(...) CFW((fits_get_compression_type), __VA_ARGS__)
#define fits_get_dither_seed(...) CFW((fits_get_dither_seed), __VA_ARGS__)
#define fits_get_hcomp_scale(...) CFW((fits_get_hcomp_scale), __VA_ARGS__)
#define fits_get_hcomp_smooth(...) CFW((fits_get_hcomp_smooth), __VA_ARGS__)
#define fits_get_noise_bits(...) CFW((fits_get_noise_bits), __VA_ARGS__)
#define fits_get_quantize_level(...) CFW((fits_get_quantize_level), __VA_ARGS__)
#define fits_get_section_range(...) CFW((fits_get_section_range), __VA_ARGS__)
#define fits_get_tile_dim(...) CFW((fits_get_tile_dim), __VA_ARGS__)
#define fits_get_token(...) CFW((fits_get_token), __VA_ARGS__)
#define fits_get_token2(...) CFW((fits_get_token2), __VA_ARGS__)
#define fits_hcompress(...) CFW((fits_hcompress), __VA_ARGS__)
#define fits_hcompress64(...) CFW((fits_hcompress64), __VA_ARGS__)
#define fits_hdecompress(...) CFW((fits_hdecompress), __VA_ARGS__)
#define fits_hdecompress64(...) CFW((fits_hdecompress64), __VA_ARGS__)
#define fits_img_compress(...) CFW((fits_img_compress), __VA_ARGS__)
#define fits_img_decompress(...) CFW((fits_img_decompress), __VA_ARGS__)
#define fits_img_decompress_header(...) CFW((fits_img_decompress_header), __VA_ARGS__)
#define fits_img_stats_float(...) CFW((fits_img_stats_float), __VA_ARGS__)
#define fits_img_stats_int(...) CFW((fits_img_stats_int), __VA_ARGS__)
#define fits_img_stats_short(...) CFW((fits_img_stats_short), __VA_ARGS__)
#define fits_init_cfitsio(...) CFW((fits_init_cfitsio), __VA_ARGS__)
#define fits_init_https(...) CFW((fits_init_https), __VA_ARGS__)
#define fits_is_compressed_image(...) CFW((fits_is_compressed_image), __VA_ARGS__)
#define fits_is_reentrant(...) CFW((fits_is_reentrant), __VA_ARGS__)
#define fits_iter_get_colnum(...) CFW((fits_iter_get_colnum), __VA_ARGS__)
#define fits_iter_get_datatype(...) CFW((fits_iter_get_datatype), __VA_ARGS__)
#define fits_iter_get_iotype(...) CFW((fits_iter_get_iotype), __VA_ARGS__)
#define fits_iter_set_by_name(...) CFW((fits_iter_set_by_name), __VA_ARGS__)
#define fits_iter_set_by_num(...) CFW((fits_iter_set_by_num), __VA_ARGS__)
#define fits_iter_set_colname(...) CFW((fits_iter_set_colname), __VA_ARGS__)
#define fits_iter_set_colnum(...) CFW((fits_iter_set_colnum), __VA_ARGS__)
#define fits_iter_set_datatype(...) CFW((fits_iter_set_datatype), __VA_ARGS__)
#define fits_iter_set_file(...) CFW((fits_iter_set_file), __VA_ARGS__)
#define fits_iter_set_iotype(...) CFW((fits_iter_set_iotype), __VA_ARGS__)
#define fits_make_hist(...) CFW((fits_make_hist), __VA_ARGS__)
#define fits_make_histd(...) CFW((fits_make_histd), __VA_ARGS__)
#define fits_pixel_filter(...) CFW((fits_pixel_filter), __VA_ARGS__)
#define fits_read_wcstab(...) CFW((fits_read_wcstab), __VA_ARGS__)
#define fits_rebin_wcs(...) CFW((fits_rebin_wcs), __VA_ARGS__)
#define fits_rebin_wcsd(...) CFW((fits_rebin_wcsd), __VA_ARGS__)
#define fits_select_image_section(...) CFW((fits_select_image_section), __VA_ARGS__)
#define fits_set_compression_pref(...) CFW((fits_set_compression_pref), __VA_ARGS__)
#define fits_set_compression_type(...) CFW((fits_set_compression_type), __VA_ARGS__)
#define fits_set_dither_offset(...) CFW((fits_set_dither_offset), __VA_ARGS__)
#define fits_set_dither_seed(...) CFW((fits_set_dither_seed), __VA_ARGS__)
#define fits_set_hcomp_scale(...) CFW((fits_set_hcomp_scale), __VA_ARGS__)
#define fits_set_hcomp_smooth(...) CFW((fits_set_hcomp_smooth), __VA_ARGS__)
#define fits_set_huge_hdu(...) CFW((fits_set_huge_hdu), __VA_ARGS__)
#define fits_set_lossy_int(...) CFW((fits_set_lossy_int), __VA_ARGS__)
#define fits_set_noise_bits(...) CFW((fits_set_noise_bits), __VA_ARGS__)
#define fits_set_quantize_dither(...) CFW((fits_set_quantize_dither), __VA_ARGS__)
#define fits_set_quantize_level(...) CFW((fits_set_quantize_level), __VA_ARGS__)
#define fits_set_quantize_method(...) CFW((fits_set_quantize_method), __VA_ARGS__)
#define fits_set_tile_dim(...) CFW((fits_set_tile_dim), __VA_ARGS__)
#define fits_translate_keyword(...) CFW((fits_translate_keyword), __VA_ARGS__)
#define fits_translate_keywords(...) CFW((fits_translate_keywords), __VA_ARGS__)
#define fits_uncompress_table(...) CFW((fits_uncompress_table), __VA_ARGS__)
#define fits_write_keys_histo(...) CFW((fits_write_keys_histo), __VA_ARGS__)
#endif
