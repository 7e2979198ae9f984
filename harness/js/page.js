/* A page: elements, jQuery and the window, as far as the plots use them.
 * The same text runs in node and in the symbolic interpreter. */

function Element(tag) {
    this.tag = tag;
    this.attrs = {};
    this.styles = {};
    this.kids = [];
    this.parentNode = null;
    this.words = null;
    this.handlers = {};
    this.controls = [];
    this.html = [];
    this.pixels = undefined;
    this.datum = undefined;
}

var PAGE = {
    body: new Element("body"),
    win: new Element("window"),
    dialogs: []
};

PAGE.adopt = function (parent, kid) {
    PAGE.drop(kid);
    kid.parentNode = parent;
    parent.kids.push(kid);
    return kid;
};

PAGE.drop = function (kid) {
    var parent = kid.parentNode;
    if (!parent)
        return;
    var at = parent.kids.indexOf(kid);
    if (at >= 0)
        parent.kids.splice(at, 1);
    kid.parentNode = null;
};

/* A <div> of a plot inside the output area of its cell */
PAGE.div = function (name, width, area) {
    var cell = area;
    if (!cell) {
        cell = PAGE.adopt(PAGE.body, new Element("div"));
        cell.attrs["class"] = "output_subarea";
        cell.pixels = width;
    }
    var div = PAGE.adopt(cell, new Element("div"));
    div.attrs.id = name;
    div.pixels = width;
    return div;
};

PAGE.below = function (node, fn, found) {
    found = found || [];
    for (var i = 0; i < node.kids.length; i++) {
        if (fn(node.kids[i]))
            found.push(node.kids[i]);
        PAGE.below(node.kids[i], fn, found);
    }
    return found;
};

PAGE.classes = function (node) {
    var c = node.attrs["class"];
    return c ? String(c).split(" ") : [];
};

/* #id, .class (several joined), a tag name, and descendants of these */
PAGE.simple = function (sel) {
    var tests = [], word = "", kind = "tag";
    function end() {
        if (word !== "")
            tests.push([kind, word]);
        word = "";
    }
    for (var i = 0; i < sel.length; i++) {
        var c = sel.charAt(i);
        if (c === "#" || c === ".") {
            end();
            kind = c === "#" ? "id" : "class";
        } else
            word += c;
    }
    end();
    return function (node) {
        for (var i = 0; i < tests.length; i++) {
            var t = tests[i];
            if (t[0] === "tag" && t[1] !== "*" && node.tag !== t[1])
                return false;
            if (t[0] === "id" && node.attrs.id !== t[1])
                return false;
            if (t[0] === "class" && PAGE.classes(node).indexOf(t[1]) < 0)
                return false;
        }
        return true;
    };
};

PAGE.find = function (root, sel) {
    var found = [];
    var choices = sel.split(",");
    for (var c = 0; c < choices.length; c++) {
        var words = choices[c].trim().split(" ");
        var at = [root];
        for (var w = 0; w < words.length; w++) {
            if (words[w] === "" || words[w] === ">")
                continue;
            var next = [], test = PAGE.simple(words[w]);
            for (var i = 0; i < at.length; i++) {
                var more = PAGE.below(at[i], test);
                for (var j = 0; j < more.length; j++)
                    if (next.indexOf(more[j]) < 0)
                        next.push(more[j]);
            }
            at = next;
        }
        for (var k = 0; k < at.length; k++)
            if (found.indexOf(at[k]) < 0)
                found.push(at[k]);
    }
    return found;
};

PAGE.byId = function (name) {
    var found = PAGE.below(PAGE.body, function (n) {
        return n.attrs.id === name;
    });
    return found.length ? found[0] : null;
};

PAGE.visible = function (node) {
    while (node) {
        if (node.attrs.visibility === "hidden" ||
            node.styles.visibility === "hidden" ||
            node.attrs.display === "none" || node.styles.display === "none")
            return false;
        node = node.parentNode;
    }
    return true;
};

PAGE.fire = function (node, type, args) {
    for (var key in node.handlers)
        if (key === type || key.indexOf(type + ".") === 0) {
            var list = node.handlers[key];
            for (var i = 0; i < list.length; i++)
                list[i].apply(node === PAGE.win ? window : node, args || []);
        }
};

PAGE.wordsOf = function (node) {
    var out = node.words === null || node.words === undefined ? "" :
        String(node.words);
    for (var i = 0; i < node.html.length; i++)
        out += " " + node.html[i];
    for (var j = 0; j < node.kids.length; j++)
        out += " " + PAGE.wordsOf(node.kids[j]);
    return out;
};

function ElementList(nodes) {
    this.nodes = nodes;
    this.length = nodes.length;
    for (var i = 0; i < nodes.length; i++)
        this[i] = nodes[i];
}

function jQuery(what) {
    if (what instanceof ElementList)
        return what;
    if (what === window)
        return new ElementList([PAGE.win]);
    if (what instanceof Element)
        return new ElementList([what]);
    if (typeof what === "function") {
        what();
        return new ElementList([]);
    }
    if (typeof what === "string" && what.charAt(0) === "<") {
        var tag = "";
        for (var i = 1; i < what.length; i++) {
            var c = what.charAt(i);
            if (c === " " || c === "/" || c === ">")
                break;
            tag += c;
        }
        return new ElementList([new Element(tag)]);
    }
    return new ElementList(PAGE.find(PAGE.body, what));
}

jQuery.each = function (items, fn) {
    if (Array.isArray(items))
        for (var i = 0; i < items.length; i++) {
            if (fn.call(items[i], i, items[i]) === false)
                break;
        }
    else
        for (var k in items)
            if (fn.call(items[k], k, items[k]) === false)
                break;
    return items;
};

jQuery.isArray = Array.isArray;
jQuery.map = function (items, fn) {
    return items.map(function (x, i) { return fn(x, i); });
};
jQuery.inArray = function (x, items) { return items.indexOf(x); };
jQuery.extend = function () { return Object.assign.apply(Object, arguments); };

ElementList.prototype.each = function (fn) {
    for (var i = 0; i < this.nodes.length; i++)
        fn.call(this.nodes[i], i, this.nodes[i]);
    return this;
};

ElementList.prototype.get = function (i) {
    return i === undefined ? this.nodes : this.nodes[i];
};

ElementList.prototype.width = function () {
    if (!this.nodes.length)
        return undefined;
    return this.nodes[0].pixels;
};

ElementList.prototype.innerWidth = ElementList.prototype.width;
ElementList.prototype.outerWidth = ElementList.prototype.width;

ElementList.prototype.append = function () {
    for (var a = 0; a < arguments.length; a++) {
        var what = arguments[a];
        for (var i = 0; i < this.nodes.length; i++) {
            if (what instanceof ElementList)
                for (var j = 0; j < what.nodes.length; j++)
                    PAGE.adopt(this.nodes[i], what.nodes[j]);
            else if (what instanceof Element)
                PAGE.adopt(this.nodes[i], what);
            else
                this.nodes[i].html.push(what);
        }
    }
    return this;
};

ElementList.prototype.appendTo = function (where) {
    jQuery(where).append(this);
    return this;
};

ElementList.prototype.closest = function (sel) {
    var out = [], test = PAGE.simple(sel);
    for (var i = 0; i < this.nodes.length; i++) {
        var n = this.nodes[i];
        while (n && !test(n))
            n = n.parentNode;
        if (n && out.indexOf(n) < 0)
            out.push(n);
    }
    return new ElementList(out);
};

ElementList.prototype.parent = function () {
    var out = [];
    for (var i = 0; i < this.nodes.length; i++)
        if (this.nodes[i].parentNode)
            out.push(this.nodes[i].parentNode);
    return new ElementList(out);
};

ElementList.prototype.find = function (sel) {
    var out = [];
    for (var i = 0; i < this.nodes.length; i++)
        out = out.concat(PAGE.find(this.nodes[i], sel));
    return new ElementList(out);
};

ElementList.prototype.on = function (type, fn) {
    for (var i = 0; i < this.nodes.length; i++) {
        var h = this.nodes[i].handlers;
        if (!h.hasOwnProperty(type))
            h[type] = [];
        h[type].push(fn);
    }
    return this;
};

ElementList.prototype.off = function (type) {
    for (var i = 0; i < this.nodes.length; i++)
        delete this.nodes[i].handlers[type];
    return this;
};

ElementList.prototype.resize = function (fn) {
    return this.on("resize", fn);
};

ElementList.prototype.attr = function (name, value) {
    if (value === undefined)
        return this.nodes.length ? this.nodes[0].attrs[name] : undefined;
    for (var i = 0; i < this.nodes.length; i++)
        this.nodes[i].attrs[name] = value;
    return this;
};

ElementList.prototype.css = function (name, value) {
    if (value === undefined)
        return this.nodes.length ? this.nodes[0].styles[name] : undefined;
    for (var i = 0; i < this.nodes.length; i++)
        this.nodes[i].styles[name] = value;
    return this;
};

ElementList.prototype.addClass = function (name) {
    for (var i = 0; i < this.nodes.length; i++) {
        var c = this.nodes[i].attrs["class"];
        this.nodes[i].attrs["class"] = c ? c + " " + name : name;
    }
    return this;
};

ElementList.prototype.text = function (words) {
    if (words === undefined)
        return this.nodes.map(PAGE.wordsOf).join("");
    for (var i = 0; i < this.nodes.length; i++) {
        this.nodes[i].kids = [];
        this.nodes[i].html = [];
        this.nodes[i].words = words;
    }
    return this;
};

ElementList.prototype.html = function (words) {
    if (words === undefined)
        return this.text();
    for (var i = 0; i < this.nodes.length; i++) {
        this.nodes[i].kids = [];
        this.nodes[i].words = null;
        this.nodes[i].html = [words];
    }
    return this;
};

ElementList.prototype.remove = function () {
    this.nodes.forEach(PAGE.drop);
    return this;
};

ElementList.prototype.empty = function () {
    return this.html("");
};

ElementList.prototype.modal = function () {
    for (var i = 0; i < this.nodes.length; i++)
        PAGE.dialogs.push(this.nodes[i]);
    return this;
};

ElementList.prototype.show = function () { return this; };

var $ = jQuery;

var document = {
    getElementById: function (name) { return PAGE.byId(name); },
    querySelector: function (sel) {
        var found = PAGE.find(PAGE.body, sel);
        return found.length ? found[0] : null;
    },
    body: PAGE.body
};

/* the scripts of a page as it is */
function require(needs, fn) {
    fn.apply(undefined, needs.map(function () { return undefined; }));
}

require.config = function () { return require; };
