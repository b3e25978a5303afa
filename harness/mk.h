// Reads a makefile text through jom's real pipeline (line reader, preprocessor, parser).
#pragma once
#include "ref_lines.h"
#include "makefile.h"
#include "macrotable.h"
#include "options.h"
#include "parser.h"
#include "preprocessor.h"
#include "exception.h"
using namespace NMakeFile;
struct Mk {
    Makefile *m; MacroTable *mt; Options *o; bool failed; QString err; uint line;
    Mk() : m(new Makefile(QString(R_("mf")))), mt(new MacroTable), o(new Options), failed(false), line(0) { m->setOptions(o); m->setMacroTable(mt); }
    bool read(const QByteArray &text, const QStringList &active = QStringList())
    {
        rt_file("mf", text);
        try {
            Preprocessor pp; pp.setMacroTable(mt); pp.openFile(R_("mf"));
            Parser p; p.apply(&pp, m, active);
        } catch (FileException &e) { failed = true; err = e.message(); line = e.line(); }
        catch (Exception &e) { failed = true; err = e.message(); }
        return !failed;
    }
    DescriptionBlock *t(const char *name) { return m->target(QString(R_(name))); }
};
static inline bool sameList(const QStringList &a, const QList<QByteArray> &b)
{
    if (a.size() != b.size()) return false;
    for (int i = 0; i < b.size(); ++i) if (!sameText(a.at(i), b.at(i))) return false;
    return true;
}
static inline void observeTarget(DescriptionBlock *b)
{
    if (!b) { sym_observe_int("notarget", 1); return; }
    rt_observe("target", b->targetName());
    for (int i = 0; i < b->m_dependents.size(); ++i) if (!b->m_dependents.at(i).startsWith(QLatin1Char('/'))) rt_observe("dep", b->m_dependents.at(i)); // absolute wildcards see the real root natively
    for (int i = 0; i < b->m_commands.size(); ++i) { rt_observe("cmd", b->m_commands.at(i).m_commandLine); sym_observe_int("max", b->m_commands.at(i).m_maxExitCode); }
}
