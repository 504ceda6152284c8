// Reference model of the documented output of debug objects, driven in step with the real library.
// One Model instance describes a whole process; every function is called while a single thread is running.
#pragma once
#include "vk.h"
#include <cstring>
#include <list>
#include <memory>

namespace model {

// Flags of a statement, in the model's own numbering.
enum : unsigned { NoNewline = 1, NoPrefix = 2, NoLabel = 4, BlankMargin = 8, BlankLabel = 16, BlankMarker = 32, Cerr = 64, Flush = 128,
                  Wait = 256, Error = 512 };

struct Line
{
  unsigned flags;
  bool continued;
  bool finishing = false; // By the part of which arguments are being evaluated.
  bool part_open;         // Arguments of a part of this line are being evaluated.
  bool opened = false;    // A nested statement was written while this line was open.
  bool fresh = true;      // Something was added since the last interruption.
  int err;
  std::string prefix;
  std::string pending;    // Text not yet sent to the stream.
  bool closed_by_other = false;   // Another thread ended the part of this line that is already in the stream.
  bool resume_needed = false;
  bool hex = false;
};

struct ThreadObj
{
  std::string margin, marker = ": ", color_on, color_off;
  std::vector<std::string> margins, markers;
  unsigned short indent = 0;
  int off = 0;              // < 0: on.
  int off_count = 0;        // Open continued lines that were started while off.
  std::vector<int> saved_off_counts;
  std::vector<std::shared_ptr<Line>> lines;     // Innermost last.
};

struct Stream
{
  std::string text;
  long flushes = 0;
};

// Text on its way to the stream.
struct Send
{
  std::shared_ptr<Line> line;
  int object;
  long thread;
  std::string text, prefix, color_on, color_off;
  bool cerr, interrupted, flush, newline, nonewline_flag, reset_after = false;
};

struct Thread;
struct Object
{
  int index;
  Stream* os;
  int always_flush = 0;
  long open_thread = 0;       // Thread that left an incomplete line in the stream; 0 if none.
  std::string open_color_off;
  std::shared_ptr<Line> open_line;  // The continued line it belongs to, null if it ended with nonewline.
};

struct Thread
{
  long id;
  std::vector<ThreadObj> obj;
  std::vector<Send>* deferred = nullptr;        // If set, what is sent is kept here instead.
  std::map<int, int> channel_off;       // By channel number; < 0: on.
};

struct Model
{
  std::vector<Object> objects;
  Stream cerr_stream;
  unsigned label_width = 8;
  std::vector<std::string> labels;      // By channel number.

  std::string padded(std::string l) const { l.resize(label_width, ' '); return l; }

  // A thread that is used for the first time has every object and channel off.
  void init_thread(Thread& t, long id)
  {
    t.id = id;
    t.obj.clear();
    t.obj.resize(objects.size());
    for (size_t i = 0; i < labels.size(); ++i) t.channel_off[i] = 0;
  }

  // Returns the label if the statement is on.
  bool channels_on(Thread const& t, std::vector<int> const& chans, std::string& label) const
  {
    for (int c : chans)
    {
      if (c == -1) { label = std::string(label_width, '>'); return true; }      // dc::always
      if (c == -2) continue;                                                    // A false condition.
      if (t.channel_off.at(c) < 0) { label = padded(labels[c]); return true; }
    }
    return false;
  }

  Stream& target(Object& o, unsigned flags) { return (flags & Cerr) ? cerr_stream : *o.os; }

  void send(Thread& t, Object& o, std::shared_ptr<Line> const& l, bool interrupted, bool flush, bool newline, bool nonewline_flag, bool reset_after = false)
  {
    ThreadObj& to = t.obj[o.index];
    Send x{l, o.index, t.id, l->pending, l->prefix, to.color_on, to.color_off, (l->flags & Cerr) != 0, interrupted, flush, newline, nonewline_flag, reset_after};
    l->pending.clear();
    if (t.deferred)
      t.deferred->push_back(std::move(x));
    else
      apply(x, o, x.cerr ? cerr_stream : *o.os);
  }

  static void apply(Send const& x, Object& o, Stream& s)
  {
    Line& l = *x.line;
    if (o.open_thread && o.open_thread != x.thread)
    {
      s.text += o.open_color_off;
      if (o.open_line)
      {
        s.text += "<unfinished>\n";
        o.open_line->closed_by_other = o.open_line->resume_needed = true;
      }
      else
        s.text += "<no newline>\n";
      o.open_thread = 0;
      o.open_line = nullptr;
    }
    if (l.resume_needed && !x.text.empty())
    {
      l.resume_needed = l.closed_by_other = false;
      s.text += x.prefix + x.color_off + "<continued>" + x.color_on + " ";
    }
    s.text += x.text;
    if (x.interrupted && !l.closed_by_other)
      s.text += x.color_off + "<unfinished>\n";
    if (x.flush)
      ++s.flushes;
    l.closed_by_other = x.newline;
    if (x.newline)
    {
      o.open_thread = 0;
      o.open_line = nullptr;
    }
    else if (!x.text.empty() || o.open_line == x.line)
    {
      o.open_thread = x.thread;
      o.open_color_off = x.color_off;
      o.open_line = x.nonewline_flag ? nullptr : x.line;
    }
    if (x.reset_after)
      l.resume_needed = l.closed_by_other = false;
  }

  enum Verdict { Off, Evaluated };

  // A plain statement, or the first part of a continued line.
  // A fatal statement (with the label `fatal') ignores whether the object or any channel is on.
  bool begin(Thread& t, Object& o, std::vector<int> const& chans, unsigned flags, bool continued, int err, char const* fatal = nullptr)
  {
    ThreadObj& to = t.obj[o.index];
    if (to.off >= 0 && !fatal)
      return false;
    std::string label;
    bool on = fatal || channels_on(t, chans, label);
    if (fatal) label = padded(fatal);
    if (continued)
    {
      if (!on) ++to.off_count;
      else { to.saved_off_counts.push_back(to.off_count); to.off_count = 0; }
    }
    if (!on)
      return false;
    if (!to.lines.empty())
    {
      std::shared_ptr<Line> op = to.lines.back();
      Line& outer = *op;
      if (outer.continued && outer.fresh)
      {
        send(t, o, op, true, false, true, false, true);
        outer.pending = outer.prefix + to.color_off + "<continued>" + to.color_on + " ";
        outer.fresh = false;
      }
      if (!outer.opened) { outer.opened = true; to.indent += 4; }
      flags |= outer.flags & Cerr;
    }
    auto l = std::make_shared<Line>();
    l->flags = flags;
    l->continued = continued;
    l->part_open = true;
    l->err = err;
    std::string p = to.color_on;
    if (!(flags & NoPrefix))
    {
      p += (flags & BlankMargin) ? std::string(to.margin.size(), ' ') : to.margin;
      if (!(flags & NoLabel))
      {
        p += (flags & BlankLabel) ? std::string(label_width, ' ') : label;
        p += (flags & BlankMarker) ? std::string(to.marker.size(), ' ') : to.marker;
        p += std::string(to.indent, ' ');
      }
    }
    l->prefix = l->pending = p;
    to.lines.push_back(std::move(l));
    return true;
  }

  // dc::continued or dc::finish.
  bool resume(Thread& t, Object& o, bool finish, unsigned flags, int err)
  {
    ThreadObj& to = t.obj[o.index];
    if (to.off >= 0)
      return false;
    if (to.off_count > 0)
    {
      if (finish) --to.off_count;
      return false;
    }
    if (finish)
    {
      to.off_count = to.saved_off_counts.back();
      to.saved_off_counts.pop_back();
    }
    Line& l = *to.lines.back();
    l.flags |= flags;
    l.err = err;
    l.part_open = true;
    l.finishing = finish;
    return true;
  }

  void text(Thread& t, Object& o, std::string const& s) { t.obj[o.index].lines.back()->pending += s; }

  // The end of a part that does not complete the line.
  void end_part(Thread& t, Object& o, bool was_continued_channel)
  {
    std::shared_ptr<Line> const& l = t.obj[o.index].lines.back();
    l->part_open = false;
    if (was_continued_channel)
      l->fresh = true;
    if (o.always_flush > 0 || (l->flags & Flush))
      send(t, o, l, false, true, false, false);
  }

  void end_line(Thread& t, Object& o, bool fatal = false)
  {
    ThreadObj& to = t.obj[o.index];
    std::shared_ptr<Line> l = to.lines.back();
    if (l->flags & Error)
      l->pending += std::string(": ") + (strerrorname_np(l->err) ? strerrorname_np(l->err) : "UNKNOWN ERROR") + " (" + strerror(l->err) + ")";
    bool nl = !(l->flags & NoNewline);
    if (nl)
      l->pending += to.color_off + "\n";
    if (fatal)
      send(t, o, l, false, true, nl, true);
    else if (l->flags & Wait)
    {
      send(t, o, l, false, true, nl, true);
      Stream& s = target(o, l->flags);
      s.text += "(type return)";
      ++s.flushes;
    }
    else
      send(t, o, l, false, o.always_flush > 0 || (l->flags & Flush), nl, true);
    if (l->opened)
      to.indent -= 4;
    to.lines.pop_back();
    if (!to.lines.empty())
    {
      to.lines.back()->fresh = false;
      if (o.always_flush > 0 || (l->flags & Flush))
        to.lines.back()->flags |= Flush;
    }
  }

  // Whether dc::continued and dc::finish may be used now.
  bool may_resume(Thread& t, Object& o)
  {
    ThreadObj& to = t.obj[o.index];
    if (to.off >= 0 || to.off_count > 0)
      return true;
    return !to.lines.empty() && to.lines.back()->continued && !to.lines.back()->part_open;
  }
};

} // namespace model
