"""behaviour-preserving edits of /repo, kept as tools/refactors/<name>.diff with the checks they concern"""
import subprocess, tempfile, shutil, os
V = os.path.dirname(os.path.abspath(__file__))
def make(name, checks, edits):
    t = tempfile.mkdtemp(prefix='mkref', dir='/var/tmp')
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', t + '/r'])
        for f, old, new in edits:
            p = t + '/r/' + f; s = open(p).read()
            assert s.count(old) >= 1, (name, f, old)
            open(p, 'w').write(s.replace(old, new))
        d = subprocess.check_output(['git', '-C', t + '/r', 'diff'], text=True)
    finally: shutil.rmtree(t)
    open(V + '/refactors/%s.diff' % name, 'w').write(d)
    open(V + '/refactors/%s.checks' % name, 'w').write(checks + '\n')
I = 'cpp/src/hermite/iterators.cpp'
make('iter-helpers', 'C01 C02 C03 C32', [
 (I, "// Grid iterators (used for N-dim for loops)", """static u_int last_maximum(const ivec & m, u_int & ind)
{
    u_int best = 0;
    ind = 0;
    for (u_int i = m.size(); i-- > 0;)
    {
        if (m[i] > best)
        {
            best = m[i];
            ind = i;
        }
    }
    if (best == 0 && m.size() > 0)
        ind = m.size() - 1;
    return best;
}

static double int_power(u_int base, u_int n)
{
    double r = 1;
    while (n-- > 0)
        r *= base;
    return r;
}

// Smallest divisor of n larger than k
static u_int next_divisor(u_int n, u_int k)
{
    u_int f = k + 1;
    while (f < n && n % f != 0)
        ++f;
    return f;
}

// Grid iterators (used for N-dim for loops)"""),
 (I, """    u_int max = 0,
          ind = 0, i;

    u_int dim = multi_index.size();

    for (i = 0; i < dim; i++)
    {
        if (multi_index[i] >= max)
        {
            max = multi_index[i];
            ind = i;
        }
    }

""", """    u_int dim = multi_index.size(), ind, i;
    const u_int max = last_maximum(multi_index, ind);
"""),
 (I, "    return saturate(pow(degree + 1, dim));", "    return saturate(int_power(degree + 1, dim));"),
 (I, """        u_int factor = 0;
        u_int product = MAX(1, multi_index[0]) * multi_index[i + 1];
        for (u_int f = MAX(1, multi_index[0]) + 1; f <= product; f++)
        {
            if (product % f == 0)
            {
                factor = f;
                break;
            }
        }
""", """        const u_int first = MAX(1, multi_index[0]);
        const u_int product = first * multi_index[i + 1];
        const u_int factor = next_divisor(product, first);
"""),
 (I, "    for (i = 0; i < dim - 1; i++)\n    {\n        if (multi_index[i + 1]  != 0)\n        {\n            multi_index[i + 1] -= 1;\n            break;\n        }\n    }\n\n    if (i == dim - 1 && multi_index[0] == degree)\n        return true;\n\n    multi_index[i] = 1 + multi_index[0];\n\n    if (i > 0)\n    {\n        multi_index[0] = 0;\n    }\n",
     "    i = 0;\n    while (i + 1 < dim && multi_index[i + 1] == 0)\n        ++i;\n\n    if (i + 1 < dim)\n        --multi_index[i + 1];\n    else if (multi_index[0] == degree)\n        return true;\n\n    const u_int head = multi_index[0];\n    if (i != 0)\n        multi_index[0] = 0;\n    multi_index[i] = head + 1;\n"),
])
make('iter-list', 'C01 C02 C03 C32', [
 (I, """    while (!Cube_iterator::s_increment(m, degree));
}""", """    while (next_cube(m, degree));
}"""),
 (I, "// Hypercube iterator {{{", """static bool next_cube(ivec & m, u_int degree)
{
    return !Cube_iterator::s_increment(m, degree);
}

// Hypercube iterator {{{"""),
 (I, """imat Cross_iterator::s_list(u_int dim, u_int degree)
{
    imat result;
    for(Cross_iterator m(dim, degree); !m.isFull(); m.increment())
    {
        result.push_back(m.get());
    }
    return result;
}""", """imat Cross_iterator::s_list(u_int dim, u_int degree)
{
    return Cross_iterator(dim, degree).getList();
}"""),
 (I, """    double result = 1;
    for (u_int i = 0; i < factors.size(); i++)
        result *= (1 + degree/factors[i]);

    return saturate(result);""", """    double result = 1 + degree;
    for (u_int i = 1; i < dim; i++)
        result = result * (1 + (degree >> 1));

    return saturate(result);"""),
 (I, """    u_int sum = 0, result = 0;
    for (u_int i = 0; i < m_vec.size(); i++)
    {
        sum += m_vec[i];
        if (sum > 0)
        {
            result += (u_int) binomial_coefficient<double> (i + sum, i + 1);
        }
    }
    return result;""", """    u_int sum = 0, result = 0, i = 0;
    for (u_int entry : m_vec)
    {
        sum += entry;
        i++;
        if (sum == 0)
            continue;
        result += (u_int) binomial_coefficient<double> (i - 1 + sum, i);
    }
    return result;"""),
 ('cpp/src/hermite/lib.cpp', """    while (true)
    {
        u_int new_x = (x1 + x2)/2;
        long new_img = (long) f(new_x) - (long) image;

        if (new_img < 0)
        {
            if (new_x == x1)
            {
                throw std::invalid_argument("pos_bissect: no solution");
            }

            x1 = new_x;
        }
        else if (new_img > 0)
        {
            x2 = new_x;
        }
        else
        {
            return new_x;
        }
    }
""", """    while (x2 - x1 > 1)
    {
        u_int new_x = x1 + (x2 - x1)/2;
        u_int value = f(new_x);

        if (value == image)
            return new_x;

        (value < image ? x1 : x2) = new_x;
    }
    throw std::invalid_argument("pos_bissect: no solution");
"""),
])
make('kernels', 'C04 C05 C06 C08 C09 C10 C11 C12 C13 C32', [
 ('cpp/src/hermite/transform.cpp', """        for (j = 0, m.reset(); j < n_polys; j++, m.increment())
        {
            double val_at_point = 1;
            for (k = 0; k < dim; k++)
            {
                val_at_point *= bases_functions_1d[k][p[k]][m[k]];
            }
            if(forward)
            {
                output[j] += input[i] * weight * val_at_point;
            }
            else
            {
                output[i] += input[j] * weight * val_at_point;
            }
        }
""", """        const double scaled = forward ? weight * input[i] : 0;
        double sum = 0;
        for (j = 0, m.reset(); j < n_polys; j++, m.increment())
        {
            double val_at_point = bases_functions_1d[0][p[0]][m[0]];
            for (k = 1; k < dim; k++)
                val_at_point = bases_functions_1d[k][p[k]][m[k]] * val_at_point;

            if (forward)
                output[j] += val_at_point * scaled;
            else
                sum += val_at_point * input[j];
        }
        if (!forward)
            output[i] = sum;
"""),
 ('cpp/src/hermite/inner.cpp', """            for (u_int k = 0; k < dim_result; k++)
            {
                if (in_dirs1[k])
                    m1[free_ind[k]] = m_result[k];
                else
                    m2[free_ind[k]] = m_result[k];
            }

            int ind1 = it_m1.index(m1),""", """            for (u_int k = dim_result; k-- > 0;)
                (in_dirs1[k] ? m1 : m2)[free_ind[k]] = m_result[k];

            int ind1 = it_m1.index(m1),"""),
 ('cpp/src/hermite/project.cpp', """            for (j = 0, m2.reset(); !m2.isFull(); j++, m2.increment())
            {
                if (isAligned(m2.get(), dirs))
                {
                    ivec sub2 = extract(m2.get(), dirs);
                    u_int ind2 = m_sub.index(sub2);
                    matrix::set(results, ind1, ind2, matrix::get(input, i, j));
                }
            }
""", """            j = 0;
            for (m2.reset(); !m2.isFull(); m2.increment())
            {
                const u_int col = j++;
                if (!isAligned(m2.get(), dirs))
                    continue;
                u_int ind2 = m_sub.index(extract(m2.get(), dirs));
                matrix::set(results, ind1, ind2, matrix::get(input, i, col));
            }
"""),
 ('cpp/src/hermite/tensorize.cpp', """        results[i] = 1;
        for (u_int j = 0; j < dirs.size(); j++)
        {
            ivec sub = extract(m.get(), dirs[j]);
            u_int ind = it_mul[j].index(sub);
            results[i] *= inputs[j][ind];
        }
""", """        double product = inputs[0][it_mul[0].index(extract(m.get(), dirs[0]))];
        for (u_int j = 1; j < dirs.size(); j++)
            product *= inputs[j][it_mul[j].index(extract(m.get(), dirs[j]))];
        results[i] = product;
"""),
 ('cpp/src/hermite/tensorize.cpp', """                    if (!has_row || !has_col)
                        continue;

                    u_int ind_row = it_product.index(multi_index_row),
                          ind_col = it_product.index(multi_index_col);

                    matrix::set(product, ind_row, ind_col, elem_A * elem_B);
""", """                    if (has_row && has_col)
                    {
                        const double value = elem_B * elem_A;
                        matrix::set(product, it_product.index(multi_index_row), it_product.index(multi_index_col), value);
                    }
"""),
 ('cpp/src/hermite/sparse.cpp', """            if(input[i][j] != 0)
            {
                result(i, j) = input[i][j];
            }
""", """            const double entry = input[i][j];
            if (entry == 0)
                continue;
            result(i, j) = entry;
"""),
 ('cpp/src/hermite/varf.cpp', """                int_m2[direction] += 1;
                if (!m->has(int_m2))
                    continue;

                u_int id = m->index(int_m2);
                results(row, id) = value * sqrt(int_m2[direction]);
""", """                ++int_m2[direction];
                if (m->has(int_m2))
                    results(row, m->index(int_m2)) = sqrt(int_m2[direction]) * value;
"""),
 ('cpp/src/hermite/varf.cpp', """    double norm = 0;
    for (u_int i = 0; i < Hf.size(); i++)
        norm += abs(Hf[i]) * abs(Hf[i]);

    norm = sqrt(norm);
    norm = MAX(norm, 1);
""", """    double norm = 0;
    for (double c : Hf)
        norm += c*c;

    norm = norm > 1 ? sqrt(norm) : 1;
"""),
])
make('pylib', 'C18 C19 C20 C24 C27', [
 ('hermipy/lib.py', """    while (any(s1.intersection(s) != set() for s1 in set1) or
           any(s2.intersection(s) != set() for s2 in set2)):

        for s2 in list(set2):
            if s.intersection(s2) != set():
                s = s.union(s2)
                set2.remove(s2)

        for s1 in list(set1):
            if s.intersection(s1) != set():
                s = s.union(s1)
                set1.remove(s1)

    set1.add(s)
    set2.add(s)

    return finest_common(set1, set2)""", """    grown = True
    while grown:
        grown = False
        for blocks in (set1, set2):
            touching = {b for b in blocks if b & s}
            if touching:
                s = s.union(*touching)
                blocks -= touching
                grown = True

    return finest_common(set1 | {s}, set2 | {s})"""),
 ('hermipy/function.py', """                for existing_key in result:
                    if existing_key.intersection(key) != frozenset():
                        key = existing_key.union(key)
                        value *= result[existing_key]
                        keys_intersect.append(existing_key)

                for k in keys_intersect:
                    del result[k]

                result[key] = value
""", """                keys_intersect = [k for k in result if k & key]
                for k in keys_intersect:
                    key = key | k
                    value = value * result.pop(k)
                result[key] = value
"""),
 ('hermipy/operator.py', """            remargs = rem.args if isinstance(rem, sympy.Add) else [rem]
            term, rem = 0, 0
            for arg in remargs:  # Convoluted to avoid rounding errors
                termarg = arg.subs(unknown, test).doit()
                if termarg == 0:
                    rem += arg
                else:
                    term += termarg
""", """            remargs = sympy.Add.make_args(rem)
            images = [(arg, arg.subs(unknown, test).doit()) for arg in remargs]
            rem = sum(arg for arg, image in images if image == 0)
            term = sum(image for _, image in images if image != 0)
"""),
])
make('lib-unionfind', 'C27 C24', [
 ('hermipy/lib.py', """    set1, set2 = set1.copy(), set2.copy()

    difference = set1 - set2
    if difference == set():
        return set1

    s = list(difference)[0]
    set1.remove(s)

    while (any(s1.intersection(s) != set() for s1 in set1) or
           any(s2.intersection(s) != set() for s2 in set2)):

        for s2 in list(set2):
            if s.intersection(s2) != set():
                s = s.union(s2)
                set2.remove(s2)

        for s1 in list(set1):
            if s.intersection(s1) != set():
                s = s.union(s1)
                set1.remove(s1)

    set1.add(s)
    set2.add(s)

    return finest_common(set1, set2)""", """    parent = {e: e for block in set1 for e in block}

    def find(e):
        while parent[e] != e:
            e = parent[e]
        return e

    for block in list(set1) + list(set2):
        elements = sorted(block)
        for e in elements[1:]:
            parent[find(e)] = find(elements[0])

    groups = {}
    for e in parent:
        groups.setdefault(find(e), set()).add(e)
    return {frozenset(g) for g in groups.values()}"""),
])
make('cache-paths', 'C16 C17', [
 ('hermipy/cache.py', """            cached_exists = False
            if os.path.isfile(savefile + '.npy'):
                cached_exists, is_sparse_cache = True, False
                savefile += '.npy'
            elif os.path.isfile(savefile + '.npz'):
                cached_exists, is_sparse_cache = True, True
                savefile += '.npz'
""", """            cached_exists, is_sparse_cache = False, False
            for extension, is_sparse in (('.npy', False), ('.npz', True)):
                if os.path.isfile(savefile + extension):
                    cached_exists, is_sparse_cache = True, is_sparse
                    savefile = savefile + extension
                    break
"""),
 ('hermipy/cache.py', """        if isinstance(argument, (list, tuple, frozenset)):
            hashes = [the_hash(e) for e in argument]
            return digest('list', '-'.join(hashes).encode('utf-8'))
        if isinstance(argument, dict):
            hashes = [the_hash(k) + the_hash(argument[k]) for k in argument]
            return digest('dict', '-'.join(hashes).encode('utf-8'))
""", """        if isinstance(argument, dict):
            content = '-'.join(the_hash(k) + the_hash(v) for k, v in argument.items())
            return digest('dict', content.encode())
        if isinstance(argument, (list, tuple, frozenset)):
            return digest('list', '-'.join(map(the_hash, argument)).encode())
"""),
 ('hermipy/cache.py', "            prefix = function.__name__\n            hash_args = hash_fun([args, kwargs])\n", "            hash_args, prefix = hash_fun([args, kwargs]), function.__name__\n"),
])
make('pyclasses', 'C21 C22 C23 C25 C26 C29 C30 C31', [
 ('hermipy/position.py', """            for d in dirs_result:
                pos = p1 if d in p1.dirs else p2
                index = pos.dirs.index(d)
                mean.append(pos.mean[index])
                cov.append(pos.cov[index][index])
                types.append(pos.types[index])
""", """            data = {}
            for p in (p2, p1):
                for k, d in enumerate(p.dirs):
                    data[d] = (p.mean[k], p.cov[k, k], p.types[k])
            for d in dirs_result:
                for target, item in zip((mean, cov, types), data[d]):
                    target.append(item)
"""),
 ('hermipy/series.py', """        for im, m in enumerate(self.multi_indices()):
            result_m = func.Function(self.coeffs[im], dirs=dirs)
            for i in range(0, self.position.dim):
                result_m *= hermite_dirs[i][m[i]]
            result += result_m
        return result * self.factor
""", """        for coeff, m in zip(self.coeffs, self.multi_indices()):
            term = func.Function(coeff, dirs=dirs)
            for polys, degree in zip(hermite_dirs, m):
                term = term * polys[degree]
            result = term + result
        return self.factor * result
"""),
 ('hermipy/series.py', """        if degree <= self.degree:
            coeffs = self.coeffs[0:n_polys]
        else:
            zeros = np.zeros(n_polys - len(self.coeffs))
            coeffs = np.hstack([self.coeffs, zeros])
""", """        coeffs = np.zeros(n_polys)
        n_kept = min(n_polys, len(self.coeffs))
        coeffs[:n_kept] = self.coeffs[:n_kept]
"""),
 ('hermipy/quad.py', """        varf_operator = 0
        for m, coeff in splitop.items():
            enum_dirs = enumerate(self.position.dirs)
            d_vector = sum([[d]*m[i] for i, d in enum_dirs], [])
            varf_part = self.varfd(coeff, degree, d_vector, sparse=sparse,
                                   index_set=index_set)
            varf_operator = varf_operator + varf_part
        return varf_operator
""", """        def part(m, coeff):
            directions = []
            for order, d in zip(m, self.position.dirs):
                directions += order*[d]
            return self.varfd(coeff, degree, directions, sparse=sparse,
                              index_set=index_set)

        parts = [part(m, coeff) for m, coeff in splitop.items()]
        return sum(parts[1:], parts[0])
"""),
 ('hermipy/quad.py', """        mapped_nodes = self.nodes.copy()
        for i, n in enumerate(self.nodes):
            mapped_nodes[i] = n * factor[i][i] + translation[i]
""", """        mapped_nodes = np.array([translation[i] + factor[i, i]*n
                                 for i, n in enumerate(self.nodes)])
"""),
 ('hermipy/varf.py', "            matrix = vstack((self.matrix, remove_vec.coeffs))\n            matrix = hstack((matrix, np.array([[*remove_vec.coeffs, 0]]).T))\n            vector = np.array([*series.coeffs, 0])\n",
  "            border = np.append(remove_vec.coeffs, 0.).reshape(-1, 1)\n            matrix = vstack((self.matrix, remove_vec.coeffs))\n            matrix = hstack((matrix, border))\n            vector = np.append(series.coeffs, 0.)\n"),
])
make('equations', 'C28', [
 ('hermipy/equations.py', "        return - fx.diff(x) - fy.diff(y) - fz.diff(z)", "        return sum(- flux.diff(v) for flux, v in zip((fx, fy, fz), (x, y, z)))"),
 ('hermipy/equations.py', "        operator = (x*d(f, y) - d(Vy, y)*d(f, x))\\\n            + γ*(- x*d(f, x) + (1/β)*d(f, x, x))\n", "        hamiltonian = x*d(f, y) - d(Vy, y)*d(f, x)\n        operator = hamiltonian + γ/β*d(f, x, x) - γ*x*d(f, x)\n"),
 ('hermipy/equations.py', "            - (A*z_vec).dot(dfdz)\\\n            + (1/β)*(A*ddfdzdz).trace()\n", "            - dfdz.dot(A*z_vec)\\\n            + (A*ddfdzdz).trace()/β\n"),
])
